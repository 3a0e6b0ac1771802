----------------------------- MODULE SelectVal ------------------------------
(* o.all: ids of the offered rules; the four lists; o.track; o.refused; o.base *)
(* and o.got: findings (strings) per rule of the unrestricted and this scan.  *)
EXTENDS Conform, FiniteSets
S == INSTANCE Select WITH o <- [incFlag |-> {}], stage <- "", inc <- {}, exc <- {}
Set(s) == { s[i] : i \in DOMAIN s }

JudgeImpl(x) ==
  LET all == Set(x.all)
      op == [incFlag |-> Set(x.incFlag), incConf |-> Set(x.incConf), excFlag |-> Set(x.excFlag), excConf |-> Set(x.excConf), track |-> x.track]
      runs == S!Runs(all, op)
      sel == S!Selected(all, op)
      \* x.base / x.got: sequences of [rule, what, open]
      want == { [rule |-> f.rule, at |-> f.at] : f \in { g \in Set(x.base) : g.rule \in runs } }
      got == { [rule |-> f.rule, at |-> f.at] : f \in Set(x.got) }
  IN IF S!Refused(all, op) THEN (IF x.refused THEN {} ELSE {"a selection without rules was accepted"})
     ELSE IF x.refused THEN {"a valid selection was refused"}
     ELSE { "missing " \o ToString(f) : f \in want \ got } \cup { "unexpected " \o ToString(f) : f \in got \ want }
          \cup { "wrong suppression state " \o ToString(f) : f \in { g \in Set(x.got) : x.track /\ g.open # (g.rule \in sel) } }
=============================================================================
