------------------------------ MODULE PermsVal ------------------------------
(* x.pkg, x.fn: the called function ("" when it is none of os or io/ioutil); *)
(* x.constant; x.parts: literals [base, digits] or-ed together; x.minus:     *)
(* literals cleared again; x.flags: further bits; x.conf: sequence of        *)
(* [rule, digits] (octal limits); x.got: rules reported at the call.         *)
EXTENDS Conform, FiniteSets
P == INSTANCE Perms WITH Width <- 1, m <- 0, lim <- 0, k <- 0, acc <- 0
Set(s) == { s[i] : i \in DOMAIN s }
JudgeImpl(x) ==
  LET mode == (UNION { P!ModeOf(p.base, p.digits) : p \in Set(x.parts) } \cup Set(x.flags)) \ UNION { P!ModeOf(p.base, p.digits) : p \in Set(x.minus) }
      conf == [r \in { c.rule : c \in Set(x.conf) } |-> P!Oct((CHOOSE c \in Set(x.conf) : c.rule = r).digits)]
      want == P!Reported(x.pkg, x.fn, x.constant, mode, conf)
      got == Set(x.got)
  IN { "not reported: " \o r : r \in want \ got } \cup { "wrongly reported: " \o r : r \in got \ want }
     \cup (IF Len(x.got) = Cardinality(got) THEN {} ELSE {"reported twice"})
=============================================================================
