------------------------------ MODULE FlowsVal ------------------------------
(* Judges what the scanner reported of generated programs.                     *)
EXTENDS Conform
S == INSTANCE Flows WITH Names <- {"a", "b"}, MaxSteps <- 1, MaxDepth <- 9, Fault <- "",
                         prog <- << >>, scopes <- << >>, next <- 1, tracked <- {}, reported <- {}
V == INSTANCE Versions
N == INSTANCE Nonces WITH Functions <- {1, 2}, MaxCalls <- 1, Fault <- "", graph <- {}, pending <- {}, followed <- {}, reported <- {}
Differ(found, must) == { "not reported: " \o ToString(i) : i \in must \ found } \cup { "reported: " \o ToString(i) : i \in found \ must }
JudgeImpl(o) ==
  IF o.kind = "flow" THEN
    IF ~S!Known(o.rule, o.prog) THEN {"unknown form"}
    ELSE Differ(S!ToSetOf(o.found), S!MustReport(o.rule, o.prog, o.on))
  ELSE IF o.kind = "call" THEN
    IF ~S!KnownCall(o) THEN {"unknown form"}
    ELSE IF o.found /\ ~S!MustReportCall(o) THEN {"reported"}
    ELSE IF ~o.found /\ S!MustReportCall(o) THEN {"not reported"} ELSE {}
  ELSE IF o.kind = "nonce" THEN
    IF ~N!KnownCalls(o.calls) THEN {"unknown form"}
    ELSE Differ(S!ToSetOf(o.found), N!MustReportAt(o.calls))
  ELSE IF o.kind = "version" THEN
    LET must == V!Shared(o.env, o.mod, o.tool) IN
    IF o.found = must THEN {} ELSE IF must THEN {"not reported"} ELSE {"reported"}
  ELSE {"unknown kind"}
=============================================================================
