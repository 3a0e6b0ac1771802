------------------------------ MODULE Outcome -------------------------------
(* From the collected findings to the report, the counters and the exit      *)
(* status of the command (C04, C05).                                         *)
(*                                                                           *)
(* A finding is [sev, conf, supp]: scores 0..2 and whether an annotation     *)
(* covers it.  Options: thresholds minSev, minConf; noFail; quiet; show      *)
(* (ignored findings); track (suppressions); off (annotations disabled).     *)
EXTENDS Util, Integers

Supp(o, f)     == f.supp /\ ~o.off
ListedF(o, f)  == ~Supp(o, f) \/ o.show \/ o.track
Passes(o, f)   == f.sev >= o.minSev /\ f.conf >= o.minConf
Reported(o, f) == ListedF(o, f) /\ Passes(o, f)
Open(o, f)     == Reported(o, f) /\ ~Supp(o, f)

ExitStatus(o, F, errs) == IF ~o.noFail /\ (errs > 0 \/ \E f \in F : Open(o, f)) THEN 1 ELSE 0
Silent(o, F, errs)     == o.quiet /\ errs = 0 /\ ~\E f \in F : Reported(o, f)

----------------------------------------------------------------------------
\* The command as a sequence of steps
Bool == BOOLEAN
CONSTANTS Scores
Kinds == [sev : Scores, conf : {2}, supp : Bool]
Contents == { F \in SUBSET Kinds : Cardinality(F) <= 2 }
OptSet == [minSev : Scores, minConf : {0}, noFail : Bool, quiet : Bool, show : Bool, track : Bool, off : Bool]

VARIABLES F, errs, o, pc, list, found, printed, status
vars == <<F, errs, o, pc, list, found, printed, status>>
Init == /\ F \in Contents /\ errs \in {0, 1} /\ o \in OptSet
        /\ pc = "collect" /\ list = {} /\ found = 0 /\ printed = FALSE /\ status = -1

Collect == pc = "collect" /\ pc' = "filter" /\ list' = { f \in F : ListedF(o, f) }
           /\ UNCHANGED <<F, errs, o, found, printed, status>>
Filter  == /\ pc = "filter" /\ list' = { f \in list : Passes(o, f) }
           /\ found' = Cardinality({ f \in list : Passes(o, f) /\ ~Supp(o, f) })
           /\ pc' = IF list' = {} /\ errs = 0 /\ o.quiet THEN "exit" ELSE "print"
           /\ UNCHANGED <<F, errs, o, printed, status>>
Show    == pc = "print" /\ printed' = TRUE /\ pc' = "exit" /\ UNCHANGED <<F, errs, o, list, found, status>>
Exit    == /\ pc = "exit" /\ pc' = "done"
           /\ status' = IF ~o.noFail /\ (errs > 0 \/ found > 0) THEN 1 ELSE 0
           /\ UNCHANGED <<F, errs, o, list, found, printed>>
Next == Collect \/ Filter \/ Show \/ Exit
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

StatusRight == pc = "done" => status = ExitStatus(o, F, errs)
PrintRight  == pc = "done" => printed = ~Silent(o, F, errs)
\* anything that makes the command fail has been shown
NoSilentFailure == pc = "done" /\ status = 1 => printed
\* lowering a threshold never removes findings
MonotoneThreshold == \A f \in F : Reported(o, f) => Reported([o EXCEPT !.minSev = 0], f)
Ends == <>(pc = "done")

Content1 == { [ F |-> SetToSeq(G), errs |-> e ] : G \in { H \in SUBSET [sev : {0, 2}, conf : {2}, supp : Bool] : Cardinality(H) <= 2 }, e \in {0, 1} }
Opt1 == { x \in OptSet : x.minSev \in {0, 2} }
ASSUME Emit({ [content |-> c, opts |-> x] : c \in Content1, x \in Opt1 })
=============================================================================
