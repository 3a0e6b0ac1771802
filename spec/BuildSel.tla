------------------------------ MODULE BuildSel ------------------------------
(* Which files of a package belong to a scan (C07, C13).                      *)
(*                                                                            *)
(* A build constraint is a formula over tags, written as a tuple:             *)
(*   <<"true">>, <<"tag", t>>, <<"not", f>>, <<"and", f, g>>, <<"or", f, g>>  *)
(* A file carries a constraint, possibly one from its name, and a kind.       *)
EXTENDS Util

RECURSIVE Holds(_, _)
Holds(f, T) ==
  CASE f[1] = "true" -> TRUE
    [] f[1] = "tag"  -> f[2] \in T
    [] f[1] = "not"  -> ~Holds(f[2], T)
    [] f[1] = "and"  -> Holds(f[2], T) /\ Holds(f[3], T)
    [] f[1] = "or"   -> Holds(f[2], T) \/ Holds(f[3], T)

\* the platform of the sandbox, and what its name in a file name implies
Platform == {"linux", "amd64", "unix", "cgo", "gc"}

\* files of a package in a build with the given tags
Selected(files, tags) == { f \in files : Holds(f.c, tags \cup Platform) /\ Holds(f.n, tags \cup Platform) }

(* The design: K workers share one load configuration.  With Shared = TRUE a  *)
(* worker clears the tags of the shared configuration before it loads (as the *)
(* code once did), with FALSE it works on a copy.                             *)
CONSTANTS Pkgs, TagSets, K, Shared
Formulas == { <<"true">>, <<"tag", "foo">>, <<"not", <<"tag", "foo">>>>,
              <<"and", <<"tag", "foo">>, <<"tag", "bar">>>>, <<"or", <<"tag", "foo">>, <<"not", <<"tag", "bar">>>>>> }
Layout == { [c |-> f, n |-> <<"true">>] : f \in Formulas }

VARIABLES tags, conf, jobs, wpc, cur, mine, loaded
vars == <<tags, conf, jobs, wpc, cur, mine, loaded>>
W == 1..K
Init == /\ tags \in TagSets /\ conf = tags /\ jobs = Pkgs
        /\ wpc = [w \in W |-> "idle"] /\ cur = [w \in W |-> "none"] /\ mine = [w \in W |-> {}]
        /\ loaded = [p \in Pkgs |-> {}]
Pick(w) == /\ wpc[w] = "idle" /\ jobs # {}
           /\ \E p \in jobs : jobs' = jobs \ {p} /\ cur' = [cur EXCEPT ![w] = p]
           /\ wpc' = [wpc EXCEPT ![w] = "read"] /\ UNCHANGED <<tags, conf, mine, loaded>>
Read(w) == /\ wpc[w] = "read" /\ mine' = [mine EXCEPT ![w] = conf] /\ wpc' = [wpc EXCEPT ![w] = "load"]
           /\ UNCHANGED <<tags, conf, jobs, cur, loaded>>
Load(w) == /\ wpc[w] = "load" /\ conf' = (IF Shared THEN {} ELSE conf)
           /\ loaded' = [loaded EXCEPT ![cur[w]] = Selected(Layout, mine[w])]
           /\ wpc' = [wpc EXCEPT ![w] = "idle"] /\ UNCHANGED <<tags, jobs, cur, mine>>
Next == \E w \in W : Pick(w) \/ Read(w) \/ Load(w)
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Done == jobs = {} /\ \A w \in W : wpc[w] = "idle"
EveryPackage == Done => \A p \in Pkgs : loaded[p] = Selected(Layout, tags)

\* selection depends on the tags that occur only, and unknown tags change nothing
TagLocal == \A f \in Layout : Holds(f.c, tags) = Holds(f.c, tags \cap {"foo", "bar"})

ASSUME Emit({ [tags |-> SetToSeq(t), k |-> k, n |-> n] : t \in TagSets, k \in {1, 2, 8}, n \in 1..4 })
=============================================================================
