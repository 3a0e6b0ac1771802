-------------------------------- MODULE Order -------------------------------
(* Order of the findings in a report (C11).  Findings arrive in an order that *)
(* depends on the schedule; the report must not.                              *)
EXTENDS Util
CONSTANTS Keys       \* the fields the comparison looks at, in order
Fields == {"sev", "what", "file", "line", "col", "rule"}
Findings == [sev : {1, 2}, what : {1}, file : {1}, line : {1, 2}, col : {1, 2}, rule : {1, 2}]
RECURSIVE Cmp(_, _, _)
Cmp(a, b, ks) == IF ks = << >> THEN 0
                 ELSE LET x == a[Head(ks)] y == b[Head(ks)] IN
                      IF x < y THEN 1 ELSE IF x > y THEN 2 ELSE Cmp(a, b, Tail(ks))
Before(a, b) == Cmp(a, b, Keys) = 2        \* decreasing

VARIABLES set, pending, list
vars == <<set, pending, list>>
Init == /\ set \in { S \in SUBSET Findings : Cardinality(S) = 3 } /\ pending = set /\ list = << >>
\* findings arrive in any order and are inserted behind those not after them
Insert(s, x) == LET i == CHOOSE k \in 0..Len(s) : /\ (k < Len(s) => Before(x, s[k + 1]))
                                                   /\ \A j \in 1..k : ~Before(x, s[j])
                IN SubSeq(s, 1, i) \o <<x>> \o SubSeq(s, i + 1, Len(s))
Arrive == \E x \in pending : pending' = pending \ {x} /\ list' = Insert(list, x) /\ UNCHANGED set
Spec == Init /\ [][Arrive]_vars
Done == pending = {}
Canonical == SetToSortSeq(set, Before)
SevOrdered == \A i, j \in DOMAIN list : i < j => list[i].sev >= list[j].sev
Permutation == Done => ToSetOf(list) = set /\ Len(list) = Cardinality(set)
ScheduleFree == Done => list = Canonical
=============================================================================
