------------------------------ MODULE Suppress ------------------------------
(* In-source suppression (C01) and suppression accounting (C02).             *)
(*                                                                           *)
(* A file is abstracted to code lines.  An annotation is attached to a piece *)
(* of code occupying the lines s..e and names a set of rules ({} = all).  A  *)
(* finding occupies the lines s..e and belongs to one rule.                  *)
(*                                                                           *)
(* State machine of one file: annotations are collected in an arbitrary      *)
(* order (the code iterates over a map) into a table of line ranges, then    *)
(* the findings are looked up in the table.  The table representation is the *)
(* one of the code; the invariants say that it decides exactly the           *)
(* declarative relation Suppresses, for every collection order.              *)
EXTENDS Util

CONSTANTS MaxLine, Rules, MaxAnnots, Merge, FirstOnly
\* Merge: "equal"  annotations share a table entry only if their ranges are equal
\*        "within" (the historical code) an annotation is folded into any entry
\*                 whose range contains it
\* FirstOnly: TRUE = lookup stops at the first related entry (historical code)

----------------------------------------------------------------------------
\* Declarative meaning
Nested(a, f)     == (a.s <= f.s /\ a.e >= f.e) \/ (f.s <= a.s /\ f.e >= a.e)
Names(a, rule)   == a.rules = {} \/ rule \in a.rules
Suppresses(a, f) == Nested(a, f) /\ Names(a, f.rule)
SuppressedBy(A, f) == { a \in A : Suppresses(a, f) }

----------------------------------------------------------------------------
\* Accounting.  o: options [track, show, off, deselected]
\*   deselected: rules taken out by include/exclude
AnnotsIn(A, o)     == IF o.off THEN {} ELSE A
InSource(A, o, f)  == SuppressedBy(AnnotsIn(A, o), f)
External(o, f)     == o.track /\ f.rule \in o.deselected
Ignored(A, o, f)   == InSource(A, o, f) # {} \/ External(o, f)
RuleRuns(o, f)     == o.track \/ f.rule \notin o.deselected
Listed(A, o, f)    == RuleRuns(o, f) /\ (~Ignored(A, o, f) \/ o.track \/ o.show)
NoSecMark(A, o, f) == o.show /\ Ignored(A, o, f)
\* number of records of each kind carried by a listed finding
InRecords(A, o, f) == IF o.track THEN InSource(A, o, f) ELSE {}
ExtRecords(o, f)   == IF External(o, f) THEN 1 ELSE 0
Found(A, o, F)     == Cardinality({ f \in F : RuleRuns(o, f) /\ ~Ignored(A, o, f) })
NoSecCount(A, o)   == Cardinality(AnnotsIn(A, o))

----------------------------------------------------------------------------
\* The code's table
Ranges   == { r \in (1..MaxLine) \X (1..MaxLine) : r[1] <= r[2] }
RuleSets == SUBSET Rules
Annots   == { [s |-> r[1], e |-> r[2], rules |-> R, id |-> i] :
              r \in Ranges, R \in RuleSets, i \in 1..MaxAnnots }
Findings == { [s |-> r[1], e |-> r[2], rule |-> x] : r \in Ranges, x \in Rules }

Files == UNION { { S \in [1..n -> Annots] : \A i \in 1..n : S[i].id = i } : n \in 0..MaxAnnots }

VARIABLES annots,  \* the annotations of the file
          todo,    \* not yet collected
          table    \* sequence of [s, e, who] entries, who: ids of the annotations folded in

vars == <<annots, todo, table>>

Joins(entry, a) == IF Merge = "equal" THEN entry.s = a.s /\ entry.e = a.e
                   ELSE entry.s <= a.s /\ entry.e >= a.e

Add(t, a) ==
  LET hits == { i \in DOMAIN t : Joins(t[i], a) }
  IN IF hits = {} THEN Append(t, [s |-> a.s, e |-> a.e, who |-> {a}])
     ELSE LET k == CHOOSE i \in hits : \A j \in hits : i <= j
          IN [t EXCEPT ![k].who = @ \cup {a}]

Lookup(t, f) ==
  LET hits == { i \in DOMAIN t : Nested(t[i], f) }
      used == IF FirstOnly /\ hits # {} THEN { CHOOSE i \in hits : \A j \in hits : i <= j } ELSE hits
  IN { a \in UNION { t[i].who : i \in used } : Names(a, f.rule) }

Init == /\ annots \in { ToSetOf(S) : S \in Files }
        /\ todo = annots
        /\ table = << >>

Collect == \E a \in todo : /\ todo' = todo \ {a}
                           /\ table' = Add(table, a)
                           /\ UNCHANGED annots
Next == Collect
Spec == Init /\ [][Next]_vars

\* every lookup after collection gives exactly the declarative answer
LookupExact == todo = {} => \A f \in Findings : Lookup(table, f) = SuppressedBy(annots, f)
\* and never anything else on the way
NoSpurious  == \A f \in Findings : Lookup(table, f) \subseteq SuppressedBy(annots, f)

Opts == [track : BOOLEAN, show : BOOLEAN, off : BOOLEAN, deselected : SUBSET Rules]
\* accounting sanity, for all options
Accounting == todo = {} => \A o \in Opts : \A f \in Findings :
   /\ (o.track => Listed(annots, o, f))                              \* nothing is lost
   /\ (o.off /\ o.deselected = {} => Listed(annots, o, f) /\ ~NoSecMark(annots, o, f))
   /\ (Listed(annots, o, f) /\ Ignored(annots, o, f) => o.track \/ o.show)
   /\ (RuleRuns(o, f) /\ ~Ignored(annots, o, f) => Listed(annots, o, f))
   /\ (o.track /\ Ignored(annots, o, f) =>
         Cardinality(InRecords(annots, o, f)) + ExtRecords(o, f) > 0)
=============================================================================
