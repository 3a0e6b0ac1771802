------------------------------ MODULE PoolVal -------------------------------
(* Judges one scan of the real command against Pool/Scan.                     *)
(* o.paths: named dirs in order; o.kinds; o.want: dir -> findings by          *)
(* construction; o.found: findings as reported; o.errs: dirs with errors;     *)
(* o.files: number of files of each dir; o.numFiles, o.numLines, o.lines;     *)
(* o.events: log events [ev, dir, file] in order (may be empty).              *)
EXTENDS Conform, FiniteSets
Set(s) == { s[i] : i \in DOMAIN s }
Count(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })
RECURSIVE Sum(_, _)
Sum(S, f) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN f[x] + Sum(S \ {x}, f)

Live(k) == k \in {"ok", "faulty"}
Erring(k) == k \in {"faulty", "broken", "dead"}

\* the scan as a walk over the recorded events: a file is checked once and
\* only after its directory has been picked up
RECURSIVE Walk(_, _, _, _)
Walk(ev, i, imported, seen) ==
  IF i > Len(ev) THEN {}
  ELSE LET e == ev[i] IN
       IF e.ev = "import" THEN Walk(ev, i + 1, imported \cup {e.dir}, seen)
       ELSE (IF e.dir \in imported THEN {} ELSE {"checked before loaded: " \o e.file})
            \cup (IF e.file \in seen THEN {"checked again: " \o e.file} ELSE {})
            \cup Walk(ev, i + 1, imported, seen \cup {e.file})

JudgeImpl(o) ==
  LET named == Set(o.paths)
      want == UNION { Set(o.want[d]) : d \in { x \in named : Live(o.kinds[x]) } }
      got == Set(o.found)
      live == { x \in named : Live(o.kinds[x]) }
  IN (IF o.finished THEN {} ELSE {"the scan does not terminate"})
     \cup { "lost " \o ToString(f) : f \in want \ got }
     \cup { "extra " \o ToString(f) : f \in got \ want }
     \cup { "reported more than once " \o ToString(f) : f \in { g \in got : Count(o.found, g) > 1 } }
     \cup { "errors of " \o d \o " lost" : d \in { x \in named : Erring(o.kinds[x]) } \ Set(o.errs) }
     \cup { "errors invented for " \o d : d \in Set(o.errs) \ { x \in named : Erring(o.kinds[x]) } }
     \cup (IF o.numFiles = Sum(live, o.files) THEN {} ELSE {"file counter " \o ToString(o.numFiles)})
     \cup (IF o.numLines = Sum(live, o.lines) THEN {} ELSE {"line counter " \o ToString(o.numLines)})
     \cup (IF o.events = << >> THEN {} ELSE Walk(o.events, 1, {}, {}))
=============================================================================
