----------------------------- MODULE ConfigVal ------------------------------
(* Two kinds of observation:                                                 *)
(* "api": x.steps, each [op, after]; after: what the configuration object    *)
(*   answers for x.opts ([k, has, v, on]) and x.secs ([k, has, v]).          *)
(* "cli": x.conf (the document), x.flags, x.probes ([id, tag, audit]) and    *)
(*   x.got ([id, nosec, supp]), x.found, x.honoured (annotation counter).    *)
EXTENDS Conform, FiniteSets, Integers
C == INSTANCE Config WITH Depth <- 0, conf <- "", hist <- ""
Set(s) == { s[i] : i \in DOMAIN s }

\* {"k": .., "v": ..} pairs to a partial function
Fun(s) == [k \in { p.k : p \in Set(s) } |-> (CHOOSE p \in Set(s) : p.k = k).v]
Doc(d) == [has |-> d.has, glob |-> Fun(d.glob), rules |-> Fun(d.rules)]
Op(o) == IF o.op = "read" THEN [op |-> "read", doc |-> Doc(o.doc)] ELSE o

Answers(c, a) ==
  { "option " \o q.k : q \in { p \in Set(a.opts) : p.has # C!Has(c, p.k) \/ p.on # C!Enabled(c, p.k) \/ (p.has /\ p.v # C!Value(c, p.k)) } }
  \cup { "section " \o q.k : q \in { p \in Set(a.secs) : p.has # (p.k \in DOMAIN c.rules) \/ (p.has /\ p.v # c.rules[p.k]) } }

RECURSIVE Walk(_, _, _)
Walk(c, steps, i) ==
  IF i > Len(steps) THEN {}
  ELSE LET d == C!Apply(c, Op(steps[i].op)) IN
       (IF steps[i].refused THEN {"step " \o ToString(i) \o " refused"} ELSE {})
       \cup { "step " \o ToString(i) \o ": " \o w : w \in Answers(d, steps[i].after) }
       \cup Walk(d, steps, i + 1)

Cli(x) ==
  LET c == C!Read(C!New, Doc(x.conf))
      f == x.flags
      covered(p) == p.tag \in C!Tags(c, f) /\ ~C!Off(c, f)
      fires(p) == p.audit => C!Audit(c, f)
      listed(p) == fires(p) /\ (covered(p) => C!Shown(c, f) \/ f.track)
      P == Set(x.probes)
      G(p) == { g \in Set(x.got) : g.id = p.id }
  IN { "probe " \o p.id \o " lost" : p \in { q \in P : listed(q) /\ G(q) = {} } }
     \cup { "probe " \o p.id \o " reported" : p \in { q \in P : ~listed(q) /\ G(q) # {} } }
     \cup { "mark of probe " \o p.id : p \in { q \in P : \E g \in G(q) : g.nosec # (covered(q) /\ C!Shown(c, f)) } }
     \cup { "records of probe " \o p.id : p \in { q \in P : \E g \in G(q) : g.supp # (covered(q) /\ f.track) } }
     \cup (IF x.honoured = Cardinality({ p \in P : covered(p) }) THEN {} ELSE {"annotation counter"})
     \cup (IF x.found = Cardinality({ p \in P : fires(p) /\ ~covered(p) }) THEN {} ELSE {"found counter"})
     \cup (IF (x.rc = 1) = (\E p \in P : fires(p) /\ ~covered(p)) THEN {} ELSE {"exit status"})

JudgeImpl(x) == IF x.kind = "api" THEN Walk(C!New, x.steps, 1) ELSE Cli(x)
=============================================================================
