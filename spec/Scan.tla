-------------------------------- MODULE Scan --------------------------------
(* What a scan of a list of paths has to do, whatever the schedule: the files *)
(* of every named directory are checked exactly once, every directory that    *)
(* fails contributes its errors, and nothing else happens.                    *)
EXTENDS Util
VARIABLES files,     \* directory -> files to be analysed
          errors,    \* directory -> errors to be reported
          todo, checked, errs
svars == <<files, errors, todo, checked, errs>>
AllFiles == UNION { files[d] : d \in DOMAIN files }
SInit == /\ todo \subseteq DOMAIN files /\ DOMAIN errors = DOMAIN files
         /\ checked = [f \in AllFiles |-> 0] /\ errs = {}
Handle(d) == /\ d \in todo
             /\ todo' = todo \ {d}
             /\ checked' = [f \in DOMAIN checked |-> IF f \in files[d] THEN checked[f] + 1 ELSE checked[f]]
             /\ errs' = errs \cup errors[d]
             /\ UNCHANGED <<files, errors>>
SNext == \E d \in todo : Handle(d)
SSpec == SInit /\ [][SNext]_svars /\ WF_svars(SNext)
=============================================================================
