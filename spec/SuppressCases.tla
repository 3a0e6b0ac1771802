--------------------------- MODULE SuppressCases ----------------------------
(* The concrete shape used to bind Suppress.tla to the scanner: one function *)
(* with simple, multi-line and nested statements, every place an annotation  *)
(* can be attached to, and the code range each place covers.                 *)
(*                                                                           *)
(*  1 func F(p int, c bool) {       6   ))                                   *)
(*  2   use(hash, narrow)           7   use(narrow)                          *)
(*  3   if c {                      8 }                                      *)
(*  4     use(hash(                 9 use(hash)                              *)
(*  5       arg,                   10 }                                      *)
(*                                                                           *)
(* The ranges follow Go's comment association: a comment at the end of a     *)
(* line belongs to the code ending there, and after an opening brace to the  *)
(* first statement of the block.                                             *)
EXTENDS Util

D == INSTANCE Suppress WITH MaxLine <- 10, Rules <- {"A","B"}, MaxAnnots <- 2,
                            Merge <- "equal", FirstOnly <- FALSE,
                            annots <- {}, todo <- {}, table <- << >>

Place == [ funcAbove |-> <<1,10>>, funcOpen |-> <<2,2>>,
           s1Above |-> <<2,2>>,    s1Trail |-> <<2,2>>,
           ifAbove |-> <<3,8>>,    ifOpen  |-> <<4,6>>,
           s2Above |-> <<4,6>>,    s2Open  |-> <<4,4>>, s2Arg |-> <<5,5>>, s2Close |-> <<4,6>>,
           s3Above |-> <<7,7>>,    s3Trail |-> <<7,7>>,
           ifClose |-> <<3,8>>,
           s4Above |-> <<9,9>>,    s4Trail |-> <<9,9>>,
           funcClose |-> <<1,10>> ]

\* A: weak hash (syntax rule), B: narrowing conversion (data-flow analyzer), Z: unrelated
Finding == << [s |-> 2, e |-> 2, rule |-> "A"], [s |-> 2, e |-> 2, rule |-> "B"],
              [s |-> 4, e |-> 6, rule |-> "A"], [s |-> 7, e |-> 7, rule |-> "B"],
              [s |-> 9, e |-> 9, rule |-> "A"] >>

Single == { [place |-> p, rules |-> R] : p \in DOMAIN Place, R \in {{}, {"A"}, {"B"}, {"A","B"}, {"Z"}} }
Few    == { [place |-> p, rules |-> R] : p \in DOMAIN Place, R \in {{}, {"A"}, {"B"}} }

Sets1 == { {a} : a \in Single } \cup {{}}
Sets2 == { {a, b} : a \in Few, b \in Few }
Distinct(S) == \A a, b \in S : a # b => a.place # b.place
Cases == Sets1 \cup { S \in Sets2 : Distinct(S) }

At(a) == [s |-> Place[a.place][1], e |-> Place[a.place][2], rules |-> a.rules, id |-> a.place]
Annots(S) == { At(a) : a \in S }
Hidden(S) == { i \in DOMAIN Finding : D!SuppressedBy(Annots(S), Finding[i]) # {} }

VARIABLES placed, verdict
Init == placed \in Cases /\ verdict = {}
Scan == verdict' = Hidden(placed) /\ placed' = placed /\ verdict = {} /\ Hidden(placed) # {}
Spec == Init /\ [][Scan]_<<placed, verdict>>

\* adding an annotation never reveals a finding, and an annotation of an unrelated rule does nothing
Monotone == \A a \in placed : Hidden(placed \ {a}) \subseteq Hidden(placed)
Unrelated == \A a \in placed : a.rules = {"Z"} => Hidden(placed \ {a}) = Hidden(placed)

ASSUME Emit({ [annots |-> S, hidden |-> Hidden(S)] : S \in Cases })
=============================================================================
