------------------------------- MODULE Locate -------------------------------
(* Where a finding points (C15).  A file is a sequence of lines [text, len]: *)
(* the text without its line break and the number of bytes with it.  A       *)
(* construct is the half-open byte range [from, to) of the file.             *)
EXTENDS Util, Integers

RECURSIVE LineOf(_, _, _)
\* line which holds byte off (0-based), when line i starts at byte 0
LineOf(f, i, off) == IF i = Len(f) \/ off < f[i].len THEN i ELSE LineOf(f, i + 1, off - f[i].len)
RECURSIVE Before(_, _)
Before(f, i) == IF i <= 1 THEN 0 ELSE f[i - 1].len + Before(f, i - 1)
ColOf(f, off) == off - Before(f, LineOf(f, 1, off)) + 1

LineText(a, b) == IF a = b THEN ToString(a) ELSE ToString(a) \o "-" \o ToString(b)
Max2(a, b) == IF a > b THEN a ELSE b
Min2(a, b) == IF a < b THEN a ELSE b
RECURSIVE Snip(_, _, _)
Snip(f, a, b) == IF a > b THEN "" ELSE ToString(a) \o ": " \o f[a].text \o "\n" \o Snip(f, a + 1, b)

\* the end of a construct is the position behind it, which can still be on its last line only
Where(f, from, to) ==
  LET a == LineOf(f, 1, from)  b == LineOf(f, 1, to)
  IN [line |-> LineText(a, b), col |-> ToString(ColOf(f, from)),
      code |-> Snip(f, Max2(1, a - 1), Min2(Len(f), b + 1))]
\* data-flow analyzers point at the operation only
Point(f, at) ==
  LET a == LineOf(f, 1, at)
  IN [line |-> ToString(a), col |-> ToString(ColOf(f, at)), code |-> Snip(f, Max2(1, a - 1), Min2(Len(f), a + 1))]

----------------------------------------------------------------------------
\* The snippet reader as a process: reads lines one after another and copies
\* those in the window.
CONSTANTS MaxLines
VARIABLES f, from, to, pos, out, pc
vars == <<f, from, to, pos, out, pc>>
Files == UNION { [1..n -> {[text |-> "a", len |-> 2], [text |-> "", len |-> 1], [text |-> "bcd", len |-> 4]}] : n \in 1..MaxLines }
Size(g) == Before(g, Len(g)) + g[Len(g)].len
Init == /\ f \in Files /\ from \in 0..(Size(f) - 1) /\ to \in from..(Size(f) - 1)
        /\ pos = 0 /\ out = "" /\ pc = "read"
StartL == LET s == LineOf(f, 1, from) IN IF s - 1 > 0 THEN s - 1 ELSE s
EndL == LineOf(f, 1, to) + 1
Read == /\ pc = "read"
        /\ IF pos < EndL /\ pos < Len(f)
           THEN /\ pos' = pos + 1
                /\ out' = IF pos + 1 >= StartL THEN out \o ToString(pos + 1) \o ": " \o f[pos + 1].text \o "\n" ELSE out
                /\ UNCHANGED pc
           ELSE pc' = "done" /\ UNCHANGED <<pos, out>>
        /\ UNCHANGED <<f, from, to>>
Spec == Init /\ [][Read]_vars /\ WF_vars(Read)
SnippetRight == pc = "done" => out = Where(f, from, to).code
InFile == LineOf(f, 1, from) \in 1..Len(f) /\ ColOf(f, from) >= 1 /\ ColOf(f, from) <= f[LineOf(f, 1, from)].len
Encloses == LineOf(f, 1, from) <= LineOf(f, 1, to)
Ends == <>(pc = "done")
=============================================================================
