------------------------------ MODULE Ranges -------------------------------
(* Integer conversions (C18): which values can reach a conversion, and what  *)
(* a scanner that tracks one interval per variable knows about them.         *)
(*                                                                           *)
(* Numbers near powers of two are coded so that they fit TLC's integers:     *)
(* s * (2^k + d) is s * (1000 * k + d) for k >= 7, other numbers (up to 100) *)
(* are themselves.  The code keeps order, neighbours and signs, which is all *)
(* that comparisons and ranges depend on.                                    *)
EXTENDS Util, Integers


Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

\* ranges of the types
SizeOf == [ int |-> 64, int8 |-> 8, int16 |-> 16, int32 |-> 32, int64 |-> 64, rune |-> 32,
            uint |-> 64, uint8 |-> 8, uint16 |-> 16, uint32 |-> 32, uint64 |-> 64, byte |-> 8 ]
Signed(t) == t \in {"int", "int8", "int16", "int32", "int64", "rune"}
RangeOf(t) == IF Signed(t) THEN [lo |-> -(1000 * (SizeOf[t] - 1)), hi |-> 1000 * (SizeOf[t] - 1) - 1]
              ELSE [lo |-> 0, hi |-> 1000 * SizeOf[t] - 1]
ParseRange(fn, bits) == LET n == IF bits = 0 THEN 64 ELSE bits IN
  IF fn = "ParseInt" THEN [lo |-> -(1000 * (n - 1)), hi |-> 1000 * (n - 1) - 1] ELSE [lo |-> 0, hi |-> 1000 * n - 1]

\* intervals
Empty(i) == i.lo > i.hi
Within(i, j) == Empty(i) \/ (i.lo >= j.lo /\ i.hi <= j.hi)
Hull(i, j) == IF Empty(i) THEN j ELSE IF Empty(j) THEN i ELSE [lo |-> Min2(i.lo, j.lo), hi |-> Max2(i.hi, j.hi)]
Meet(i, j) == [lo |-> Max2(i.lo, j.lo), hi |-> Min2(i.hi, j.hi)]

\* a widening conversion holds every value of the source
Widening(src, dst) == Within(RangeOf(src), RangeOf(dst))

\* conditions: [k |-> "cmp", op, c, flip], [k |-> "other"] (about something else),
\* [k |-> "not", a], [k |-> "and", a, b], [k |-> "or", a, b], [k |-> "value", a] (computed before it is branched on)
Flip(op) == CASE op = "<" -> ">" [] op = ">" -> "<" [] op = "<=" -> ">=" [] op = ">=" -> "<=" [] OTHER -> op
Negate(op) == CASE op = "<" -> ">=" [] op = ">=" -> "<" [] op = ">" -> "<=" [] op = "<=" -> ">" [] op = "==" -> "!=" [] OTHER -> "=="
Holds(op, v, c) == CASE op = "<" -> v < c [] op = "<=" -> v <= c [] op = ">" -> v > c [] op = ">=" -> v >= c [] op = "==" -> v = c [] OTHER -> v # c
OpOf(a) == IF a.flip THEN Flip(a.op) ELSE a.op

RECURSIVE Outcomes(_, _)
\* truth values a condition can have for the value v
Outcomes(a, v) == CASE a.k = "cmp" -> {Holds(OpOf(a), v, a.c)}
                    [] a.k = "other" -> BOOLEAN
                    [] a.k = "not" -> { ~o : o \in Outcomes(a.a, v) }
                    [] a.k = "value" -> Outcomes(a.a, v)
                    [] a.k = "and" -> { p /\ q : p \in Outcomes(a.a, v), q \in Outcomes(a.b, v) }
                    [] a.k = "or" -> { p \/ q : p \in Outcomes(a.a, v), q \in Outcomes(a.b, v) }

Confine(i, op, c) == CASE op = "<" -> Meet(i, [lo |-> i.lo, hi |-> c - 1])
                       [] op = "<=" -> Meet(i, [lo |-> i.lo, hi |-> c])
                       [] op = ">" -> Meet(i, [lo |-> c + 1, hi |-> i.hi])
                       [] op = ">=" -> Meet(i, [lo |-> c, hi |-> i.hi])
                       [] op = "==" -> Meet(i, [lo |-> c, hi |-> c])
                       [] OTHER -> [lo |-> IF i.lo = c THEN c + 1 ELSE i.lo, hi |-> IF i.hi = c THEN c - 1 ELSE i.hi]
RECURSIVE Known(_, _, _)
\* what is known of a value in i after the condition came out as t
Known(i, a, t) == CASE a.k = "cmp" -> (IF Empty(i) THEN i ELSE Confine(i, IF t THEN OpOf(a) ELSE Negate(OpOf(a)), a.c))
                    [] a.k \in {"other", "value"} -> i
                    [] a.k = "not" -> Known(i, a.a, ~t)
                    [] (a.k = "and") = t -> Known(Known(i, a.a, t), a.b, t)          \* both came out as t
                    [] OTHER -> Hull(Known(i, a.a, t), Known(Known(i, a.a, ~t), a.b, t))

RECURSIVE ConstsOf(_)
ConstsOf(a) == CASE a.k = "cmp" -> {a.c} [] a.k = "other" -> {} [] a.k \in {"not", "value"} -> ConstsOf(a.a) [] OTHER -> ConstsOf(a.a) \cup ConstsOf(a.b)

\* steps on the way: [f |-> "pass", t, a] goes on only if a comes out as t; [f |-> "look", a] goes on either way;
\* [f |-> "clamp", a, c] sets the variable to c if a holds; [f |-> "set"] assigns something else of the same type.
StepValues(s, V, T) == CASE s.f = "pass" -> { v \in V : s.t \in Outcomes(s.a, v) }
                         [] s.f = "look" -> V
                         [] s.f = "clamp" -> { v \in V : FALSE \in Outcomes(s.a, v) } \cup (IF \E v \in V : TRUE \in Outcomes(s.a, v) THEN {s.c} ELSE {})
                         [] s.f = "set" -> IF V = {} THEN {} ELSE T
StepKnown(s, i, all) == CASE s.f = "pass" -> Known(i, s.a, s.t)
                          [] s.f = "look" -> i
                          [] s.f = "clamp" -> Hull(Known(i, s.a, FALSE), [lo |-> s.c, hi |-> s.c])
                          [] s.f = "set" -> all
StepConsts(s) == CASE s.f = "clamp" -> ConstsOf(s.a) \cup {s.c} [] s.f = "set" -> {} [] OTHER -> ConstsOf(s.a)

RECURSIVE Reaching(_, _, _), KnownAfter(_, _, _)
Reaching(steps, V, T) == IF steps = << >> THEN V ELSE Reaching(Tail(steps), StepValues(Head(steps), V, T), T)
KnownAfter(steps, i, all) == IF steps = << >> THEN i ELSE KnownAfter(Tail(steps), StepKnown(Head(steps), i, all), all)

\* the values at which anything can change
Critical(steps, i, all) == LET C == UNION { StepConsts(steps[j]) : j \in DOMAIN steps } \cup {i.lo, i.hi, all.lo, all.hi} \cup {0}
                           IN { c + d : c \in C, d \in {-1, 0, 1} }
In(i, S) == { v \in S : v >= i.lo /\ v <= i.hi }

----------------------------------------------------------------------------
\* Model: one value runs through arbitrary conditions next to the interval.
CONSTANTS Lo, Hi, Consts, Ops, Depth
VARIABLES v, known, S, n, plain
mvars == <<v, known, S, n, plain>>
All == [lo |-> Lo, hi |-> Hi]
Atoms == { [k |-> "cmp", op |-> op, c |-> c, flip |-> f] : op \in Ops, c \in Consts, f \in BOOLEAN }
Conds == Atoms \cup { [k |-> x, a |-> a] : x \in {"not", "value"}, a \in Atoms }
         \cup { [k |-> c, a |-> a, b |-> b] : c \in {"and", "or"}, a \in Atoms, b \in { x \in Atoms : ~x.flip } \cup {[k |-> "other"]} }
\* can the condition cut a value out of the middle
RECURSIVE Holed(_)
Holed(a) == CASE a.k = "cmp" -> a.op \in {"==", "!="} [] a.k = "other" -> FALSE [] a.k \in {"not", "value"} -> a.k = "value" \/ Holed(a.a) [] OTHER -> Holed(a.a) \/ Holed(a.b)
Init == v \in Lo..Hi /\ known = All /\ S = Lo..Hi /\ n = 0 /\ plain = TRUE
Steps == [ f : {"pass"}, t : BOOLEAN, a : Conds ] \cup [ f : {"clamp"}, a : Atoms, c : Consts ] \cup { [f |-> "set"] }
Go(s) == /\ n < Depth /\ n' = n + 1
         /\ v' \in StepValues(s, {v}, Lo..Hi)
         /\ known' = StepKnown(s, known, All)
         /\ S' = StepValues(s, S, Lo..Hi)
         /\ plain' = (plain /\ (s.f = "set" \/ (s.f = "pass" /\ ~Holed(s.a))))
Next == \E s \in Steps : Go(s)
Spec == Init /\ [][Next]_mvars
TypeOK == v \in Lo..Hi /\ n \in 0..Depth
\* the interval never loses a value which can be there
Sound == v >= known.lo /\ v <= known.hi
SoundSet == v \in S /\ \A x \in S : x >= known.lo /\ x <= known.hi
\* with plain inequalities the interval is exact: its ends can be there
Tight == (plain /\ n <= 1) => (known.lo \in S /\ known.hi \in S)
=============================================================================
