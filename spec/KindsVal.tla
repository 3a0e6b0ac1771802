------------------------------ MODULE KindsVal ------------------------------
(* o.files: [name, test, marker, cgo, lines, want: findings of the file];     *)
(* o.tests, o.exgen; o.found: findings [name, rule, line]; counters.          *)
EXTENDS Conform, FiniteSets
M == INSTANCE Kinds WITH files <- {}, tests <- FALSE, exgen <- FALSE, todo <- {}, variants <- {}, done <- {}, numFiles <- 0
Set(s) == { s[i] : i \in DOMAIN s }
RECURSIVE Lines(_)
Lines(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN x.lines + Lines(S \ {x})
JudgeImpl(o) ==
  LET A == { f \in Set(o.files) : M!Analysed(f, o.tests, o.exgen) }
      want == UNION { Set(f.want) : f \in A }
      got == Set(o.found)
  IN { "missing " \o ToString(x) : x \in want \ got } \cup { "unexpected " \o ToString(x) : x \in got \ want }
     \cup (IF Len(o.found) = Cardinality(got) THEN {} ELSE {"a finding is reported twice"})
     \cup (IF o.numFiles = Cardinality(A) THEN {} ELSE {"file counter " \o ToString(o.numFiles) \o " instead of " \o ToString(Cardinality(A))})
     \cup (IF o.numLines = Lines(A) THEN {} ELSE {"line counter " \o ToString(o.numLines) \o " instead of " \o ToString(Lines(A))})
     \cup (IF o.numFound = Len(o.found) THEN {} ELSE {"found counter"})
=============================================================================
