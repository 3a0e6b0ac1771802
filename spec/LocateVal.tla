----------------------------- MODULE LocateVal ------------------------------
(* x.lines: the file; x.from, x.to: the marked construct; x.flow: reported   *)
(* by a data-flow analyzer; x.name: the file; x.got: findings of the marked  *)
(* rule ([file, line, col, code]); x.others: all other findings in the file. *)
EXTENDS Conform, FiniteSets, Integers
L == INSTANCE Locate WITH MaxLines <- 1, f <- "", from <- 0, to <- 0, pos <- 0, out <- "", pc <- ""
Set(s) == { s[i] : i \in DOMAIN s }

\* any finding lies in its file and shows the lines of its range verbatim
Sound(x, g) == /\ g.a >= 1 /\ g.b >= g.a /\ g.b <= Len(x.lines)
               /\ g.colN >= 1 /\ g.colN <= x.lines[g.a].len
               /\ g.code = L!Snip(x.lines, L!Max2(1, g.a - 1), L!Min2(Len(x.lines), g.b + 1))
JudgeImpl(x) ==
  LET w == IF x.flow THEN L!Point(x.lines, x.from) ELSE L!Where(x.lines, x.from, x.to)
  IN (IF Len(x.got) = 1 THEN {} ELSE {ToString(Len(x.got)) \o " findings of the marked construct"})
     \cup UNION { (IF g.file = x.name THEN {} ELSE {"file " \o g.file})
                  \cup (IF g.line = w.line THEN {} ELSE {"line " \o g.line \o " instead of " \o w.line})
                  \cup (IF g.col = w.col THEN {} ELSE {"column " \o g.col \o " instead of " \o w.col})
                  \cup (IF g.code = w.code THEN {} ELSE {"snippet " \o ToString(<<g.code, w.code>>)}) : g \in Set(x.got) }
     \cup { "unsound position " \o g.line \o ":" \o g.col : g \in { h \in Set(x.got) \cup Set(x.others) : ~Sound(x, h) } }
=============================================================================
