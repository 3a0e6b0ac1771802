------------------------------ MODULE OrderVal ------------------------------
(* o.kind "runs": o.runs, sequence of [tag, list] where list are findings     *)
(* [sev, id] in report order; o.sorted.                                       *)
(* o.kind "docs": o.docs, sequence of [tag, digest] of one report format.     *)
EXTENDS Conform, FiniteSets
Set(s) == { s[i] : i \in DOMAIN s }
Ids(s) == [i \in DOMAIN s |-> s[i].id]
JudgeImpl(o) ==
  IF o.kind = "docs"
  THEN { "the " \o o.format \o " reports of the same tree differ: " \o o.docs[1].tag \o " / " \o o.docs[i].tag : i \in { k \in DOMAIN o.docs : o.docs[k].digest # o.docs[1].digest } }
  ELSE LET first == o.runs[1].list IN
     { "another order in run " \o o.runs[i].tag : i \in { k \in DOMAIN o.runs : o.sorted /\ Set(o.runs[k].list) = Set(first) /\ Ids(o.runs[k].list) # Ids(first) } }
     \cup { "another content in run " \o o.runs[i].tag \o ": " \o ToString((Set(o.runs[i].list) \ Set(first)) \cup (Set(first) \ Set(o.runs[i].list))) :
              i \in { k \in DOMAIN o.runs : Set(o.runs[k].list) # Set(first) } }
     \cup { "not ordered by severity in run " \o o.runs[i].tag : i \in { k \in DOMAIN o.runs : o.sorted /\ \E a \in 1..(Len(o.runs[k].list) - 1) : o.runs[k].list[a].sev < o.runs[k].list[a + 1].sev } }
     \cup { "lost or duplicated in run " \o o.runs[i].tag : i \in { k \in DOMAIN o.runs : Len(o.runs[k].list) # Cardinality(Set(o.runs[k].list)) \/ Len(o.runs[k].list) # Len(first) } }
=============================================================================
