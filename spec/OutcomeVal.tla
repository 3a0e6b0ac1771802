----------------------------- MODULE OutcomeVal -----------------------------
(* Judges runs of the command.  kind "exit": o.F, o.errs, o.opts, o.status,  *)
(* o.printed.  kind "report": o.base findings [id, sev, conf, supp], o.opts, *)
(* o.got [id, sev, conf], o.found.                                           *)
EXTENDS Conform, FiniteSets
M == INSTANCE Outcome WITH Scores <- {}, F <- {}, errs <- 0, o <- [x |-> 0], pc <- "", list <- {}, found <- 0, printed <- FALSE, status <- 0
Set(s) == { s[i] : i \in DOMAIN s }
JudgeExit(x) ==
  LET G == Set(x.F) IN
  (IF x.status = M!ExitStatus(x.opts, G, x.errs) THEN {} ELSE {"exit status " \o ToString(x.status)})
  \cup (IF x.printed = ~M!Silent(x.opts, G, x.errs) THEN {} ELSE {"report shown: " \o ToString(x.printed)})
JudgeReport(x) ==
  LET want == { [id |-> f.id, sev |-> f.sev, conf |-> f.conf] : f \in { g \in Set(x.base) : M!Reported(x.opts, g) } }
      got == Set(x.got)
      open == Cardinality({ f \in Set(x.base) : M!Open(x.opts, f) })
  IN { "missing " \o ToString(f) : f \in want \ got } \cup { "unexpected " \o ToString(f) : f \in got \ want }
     \cup (IF Len(x.got) = Cardinality(got) THEN {} ELSE {"a finding is reported twice"})
     \cup (IF x.found = open THEN {} ELSE {"found counter " \o ToString(x.found) \o " instead of " \o ToString(open)})
JudgeImpl(x) == IF x.kind = "exit" THEN JudgeExit(x) ELSE JudgeReport(x)
=============================================================================
