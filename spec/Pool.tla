-------------------------------- MODULE Pool --------------------------------
(* The worker pool of a scan (C06): a bounded queue of paths, K workers which *)
(* load packages, a rendezvous channel of results, and one consumer which     *)
(* checks the loaded files and collects errors.                               *)
(*                                                                            *)
(* A path is [dir, kind]; kinds:                                              *)
(*   ok      loads, its files are checked                                     *)
(*   faulty  loads with errors of its own, its files are checked              *)
(*   broken  cannot be loaded: an error, no files                             *)
(*   empty   no file belongs to the build: neither files nor errors           *)
(*   missing does not exist: neither files nor errors                         *)
(* The same directory may be named by several paths.                          *)
EXTENDS Util
CONSTANTS K, MaxPaths, DirNames, Kinds,
          Dedup       \* the consumer checks a file only once

VARIABLES paths, jobs, wpc, cur, closed, inbox, mpc, checked, errs, kindOf
vars == <<paths, jobs, wpc, cur, closed, inbox, mpc, checked, errs, kindOf>>
W == 1..K
None == "none"

FilesOf(d) == IF kindOf[d] \in {"ok", "faulty"} THEN {d} ELSE {}
ErrorsOf(d) == IF kindOf[d] \in {"faulty", "broken"} THEN {d} ELSE {}

Init ==
  /\ kindOf \in [DirNames -> Kinds]
  /\ paths \in UNION { [1..n -> DirNames] : n \in 1..MaxPaths }
  /\ jobs = paths
  /\ wpc = [w \in W |-> "pick"] /\ cur = [w \in W |-> None]
  /\ closed = FALSE /\ inbox = None /\ mpc = "recv"
  /\ checked = [d \in DirNames |-> 0] /\ errs = {}

Pick(w) == /\ wpc[w] = "pick"
           /\ IF jobs = << >>
              THEN /\ wpc' = [wpc EXCEPT ![w] = "exit"] /\ UNCHANGED <<jobs, cur>>
              ELSE /\ jobs' = Tail(jobs) /\ cur' = [cur EXCEPT ![w] = Head(jobs)]
                   /\ wpc' = [wpc EXCEPT ![w] = "load"]
           /\ UNCHANGED <<paths, closed, inbox, mpc, checked, errs, kindOf>>
Load(w) == /\ wpc[w] = "load" /\ wpc' = [wpc EXCEPT ![w] = "send"]
           /\ UNCHANGED <<paths, jobs, cur, closed, inbox, mpc, checked, errs, kindOf>>
Send(w) == /\ wpc[w] = "send" /\ mpc = "recv"
           /\ inbox' = cur[w] /\ mpc' = "check"
           /\ cur' = [cur EXCEPT ![w] = None] /\ wpc' = [wpc EXCEPT ![w] = "pick"]
           /\ UNCHANGED <<paths, jobs, closed, checked, errs, kindOf>>
Close == /\ ~closed /\ \A w \in W : wpc[w] = "exit" /\ closed' = TRUE
         /\ UNCHANGED <<paths, jobs, wpc, cur, inbox, mpc, checked, errs, kindOf>>
Check == /\ mpc = "check"
         /\ checked' = [d \in DirNames |-> IF d \in FilesOf(inbox) /\ ~(Dedup /\ checked[d] > 0) THEN checked[d] + 1 ELSE checked[d]]
         /\ errs' = errs \cup ErrorsOf(inbox)
         /\ inbox' = None /\ mpc' = "recv"
         /\ UNCHANGED <<paths, jobs, wpc, cur, closed, kindOf>>
Finish == /\ mpc = "recv" /\ closed /\ mpc' = "done"
          /\ UNCHANGED <<paths, jobs, wpc, cur, closed, inbox, checked, errs, kindOf>>
Next == (\E w \in W : Pick(w) \/ Load(w) \/ Send(w)) \/ Close \/ Check \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

Named == ToSetOf(paths)
Done == mpc = "done"
Terminates == <>Done
ExactlyOnce == Done => \A d \in DirNames : checked[d] = IF d \in Named /\ FilesOf(d) # {} THEN 1 ELSE 0
NeverTwice == \A d \in DirNames : checked[d] <= 1
ErrorsExact == Done => errs = UNION { ErrorsOf(d) : d \in Named }

\* Pool refines Scan: a directory is handled when its first result is consumed
Pending == { d \in Named : \/ \E i \in DOMAIN jobs : jobs[i] = d
                           \/ \E w \in W : cur[w] = d
                           \/ inbox = d }
Handled(d) == checked[d] > 0 \/ (FilesOf(d) = {} /\ ErrorsOf(d) # {} /\ d \in errs) \/ (FilesOf(d) = {} /\ ErrorsOf(d) = {} /\ d \notin Pending)
S == INSTANCE Scan WITH files <- [d \in DirNames |-> FilesOf(d)], errors <- [d \in DirNames |-> ErrorsOf(d)],
       todo <- { d \in Named : ~Handled(d) }, checked <- [d \in { x \in DirNames : FilesOf(x) # {} } |-> checked[d]], errs <- errs
Refines == S!SSpec

\* cases for the real scanner
Cases == { [paths |-> p, kinds |-> k] :
             p \in UNION { [1..n -> DirNames] : n \in 1..MaxPaths }, k \in [DirNames -> Kinds] }
ASSUME Emit(Cases)
=============================================================================
