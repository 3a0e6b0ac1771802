------------------------------- MODULE Paths --------------------------------
(* Expansion of the path arguments (C12).                                     *)
(*                                                                            *)
(* A tree is a set of directories, each a sequence of names below the root,   *)
(* and the set of those which directly hold Go files.  An exclusion is the    *)
(* sequence of names a directory expression stands for: it matches every      *)
(* directory whose path has these names one after the other.                  *)
EXTENDS Util

SubSeqAt(s, t, i) == i + Len(t) - 1 <= Len(s) /\ \A k \in 1..Len(t) : s[i + k - 1] = t[k]
\* an expression may end in "$": only the directory itself then, not those below it
Matches(d, x) == IF x[Len(x)] = "$" THEN Len(d) >= Len(x) - 1 /\ SubSeqAt(d, Front(x), Len(d) - Len(x) + 2)
                 ELSE \E i \in 1..Len(d) : SubSeqAt(d, x, i)
Excluded(d, X) == \E x \in X : Matches(d, x)
Under(d, r) == Len(d) >= Len(r) /\ SubSeq(d, 1, Len(r)) = r

\* directories an argument "r/..." stands for
Expand(gofiles, r, X) == { d \in gofiles : Under(d, r) /\ ~Excluded(d, X) }

Defaults == { <<"vendor">> }

----------------------------------------------------------------------------
\* the walk, step by step: a directory is added when the first of its Go files
\* is met, in any order of visits
CONSTANTS Names, Depth
AllDirs == UNION { [1..n -> Names] : n \in 0..Depth }
VARIABLES gofiles, root, excl, todo, paths
vars == <<gofiles, root, excl, todo, paths>>
Init == /\ gofiles \in { G \in SUBSET AllDirs : Cardinality(G) <= 3 }
        /\ root \in { d \in AllDirs : Len(d) <= 1 }
        /\ excl \in { Defaults, Defaults \cup {<<"a">>}, Defaults \cup {<<"a", "b">>}, Defaults \cup {<<"a", "$">>} }
        /\ todo = { <<d, i>> : d \in { g \in gofiles : Under(g, root) }, i \in 1..2 } /\ paths = << >>
Meet == \E t \in todo : /\ todo' = todo \ {t}
                        /\ paths' = IF Excluded(t[1], excl) \/ t[1] \in ToSetOf(paths) THEN paths ELSE Append(paths, t[1])
                        /\ UNCHANGED <<gofiles, root, excl>>
Next == Meet
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exact == todo = {} => ToSetOf(paths) = Expand(gofiles, root, excl) /\ Len(paths) = Cardinality(ToSetOf(paths))
Sound == ToSetOf(paths) \subseteq Expand(gofiles, root, excl)
\* adding an exclusion only removes directories
Monotone == Expand(gofiles, root, excl) \subseteq Expand(gofiles, root, Defaults)

ASSUME Emit({ [go |-> SetToSeq(G), root |-> r, excl |-> SetToSeq(x)] :
        G \in { H \in SUBSET AllDirs : Cardinality(H) \in 1..2 }, r \in { d \in AllDirs : Len(d) <= 1 },
        x \in { {}, {<<"a">>}, {<<"a", "b">>}, {<<"a", "$">>}, {<<"a", "b", "$">>} } })
=============================================================================
