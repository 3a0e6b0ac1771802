------------------------------- MODULE Errors -------------------------------
(* Collection of the errors of a scan (C08).  Every package contributes a     *)
(* sequence of errors [file, line, col, msg]; packages arrive in any order,   *)
(* possibly twice; the report maps a file to its errors, ordered.             *)
EXTENDS Util

Less(a, b) == \/ a.line < b.line \/ (a.line = b.line /\ a.col < b.col)
Leq(a, b)  == Less(a, b) \/ (a.line = b.line /\ a.col = b.col)
Ordered(s) == \A i, j \in DOMAIN s : i < j => Leq(s[i], s[j])
Core(e)    == [line |-> e.line, col |-> e.col, msg |-> e.msg]

CONSTANTS MaxErrs
Pkgs == {1, 2}
Errs == [file : {"f", "g"}, line : {1, 2}, col : {1}, msg : {"m", "n"}]
VARIABLES errs, todo, map, done
vars == <<errs, todo, map, done>>
Init == /\ errs \in [Pkgs -> UNION { [1..n -> Errs] : n \in 0..MaxErrs }]
        /\ todo \in { << >>, <<1>>, <<1, 2>>, <<2, 1>>, <<1, 1>>, <<1, 2, 1>> }
        /\ map = [f \in {"f", "g"} |-> << >>] /\ done = FALSE
RECURSIVE AddAll(_, _)
AddAll(m, s) == IF s = << >> THEN m
                ELSE LET e == Head(s) IN
                     AddAll(IF \E i \in DOMAIN m[e.file] : m[e.file][i] = Core(e) THEN m
                            ELSE [m EXCEPT ![e.file] = Append(@, Core(e))], Tail(s))
Consume == /\ todo # << >> /\ map' = AddAll(map, errs[Head(todo)]) /\ todo' = Tail(todo) /\ UNCHANGED <<errs, done>>
Sorted(s) == SortSeq(s, Less)
Finish == /\ todo = << >> /\ ~done /\ done' = TRUE /\ map' = [f \in DOMAIN map |-> Sorted(map[f])] /\ UNCHANGED <<errs, todo>>
Next == Consume \/ Finish
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)

AllErrors(E, f) == { Core(E[i]) : i \in { j \in DOMAIN E : E[j].file = f } }
\* what a finished report must be, given the errors of the packages
ReportRight(m, E) == \A f \in DOMAIN m : /\ Ordered(m[f])
                                         /\ ToSetOf(m[f]) = AllErrors(E, f)
                                         /\ Len(m[f]) = Cardinality(ToSetOf(m[f]))
NoneInvented == \A f \in DOMAIN map : ToSetOf(map[f]) \subseteq AllErrors(errs[1] \o errs[2], f)
Right == done => \A f \in DOMAIN map : Ordered(map[f]) /\ Len(map[f]) = Cardinality(ToSetOf(map[f]))
Ends == <>done

\* kinds of faults a package can have, and where
Faults == {"type", "undef", "unused", "unusedimport", "noreturn", "dup", "syntax", "unterminated", "eof", "badimport", "badtoken", "none"}
ASSUME Emit({ [f1 |-> a, f2 |-> b, tests |-> t] : a \in Faults, b \in Faults, t \in BOOLEAN })
=============================================================================
