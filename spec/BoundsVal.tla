----------------------------- MODULE BoundsVal -----------------------------
(* x.flows: ways the accessed slice comes about; x.access, x.guards; x.got:   *)
(* reported or not; x.run: what running it did (panics, fine, or unknown).    *)
EXTENDS Conform, Integers, FiniteSets
B == INSTANCE Bounds WITH MaxCap <- 0, MaxCuts <- 0, TwoSizes <- TRUE, Relative <- TRUE, Exactly <- TRUE, ByValue <- TRUE, Both <- TRUE, z <- [len |-> 0, cap |-> 0], k <- [len |-> 0, cap |-> 0], w <- [len |-> 0, cap |-> 0],
       cuts <- 0, guard <- [op |-> ">=", k |-> 0, holds |-> TRUE], access <- [kind |-> "none"], verdict <- "none", panics <- FALSE, filled <- FALSE
Real(f) == [from |-> B!KMake(f.len, f.cap), cuts |-> f.cuts]
RECURSIVE Runs(_, _, _)
Runs(z, cs, a) == IF cs # << >> THEN B!CutPanics(z, cs[1]) \/ Runs(B!CutOf(z, cs[1]), Tail(cs), a)
                  ELSE IF a.kind = "index" THEN B!IndexPanics(z, a.i) ELSE B!CutPanics(z, a.cut)
JudgeImpl(x) ==
  LET w == B!Verdict([q \in DOMAIN x.flows |-> Real(x.flows[q])], x.access, x.guards)
      r == IF x.run = "unknown" THEN "unknown" ELSE IF Runs([len |-> x.flows[1].len, cap |-> x.flows[1].cap], x.flows[1].cuts, x.access) THEN "panics" ELSE "fine"
  IN (IF r # x.run THEN {"specification: it " \o x.run} ELSE {}) \cup
     (IF w = "report" /\ ~x.got THEN {"not reported"} ELSE IF w = "quiet" /\ x.got THEN {"reported"} ELSE {})
=============================================================================
