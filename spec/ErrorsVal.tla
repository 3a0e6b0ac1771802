----------------------------- MODULE ErrorsVal ------------------------------
(* o.report: sequence of [file, errs: sequence of [line, col, msg]];          *)
(* o.toolchain: sequence of [file, line, col, msg] the tool chain reports;    *)
(* o.must: sequence of [file, line] where faults were planted;                *)
(* o.refused: directories that cannot be imported, with o.keys the error keys;*)
(* o.want/o.found: findings that have to be and that are reported.            *)
EXTENDS Conform, FiniteSets
M == INSTANCE Errors WITH MaxErrs <- 0, errs <- << >>, todo <- << >>, map <- << >>, done <- FALSE
Set(s) == { s[i] : i \in DOMAIN s }
Files(o) == { o.report[i].file : i \in DOMAIN o.report }
Of(o, f) == IF f \in Files(o) THEN (CHOOSE r \in Set(o.report) : r.file = f).errs ELSE << >>
JudgeImpl(o) ==
  LET tf == { e.file : e \in Set(o.toolchain) }
      dirs == Set(o.refused)
      want == Set(o.want)
      got == Set(o.found)
  IN UNION { { "lost in " \o f \o ": " \o ToString(e) : e \in M!AllErrors(o.toolchain, f) \ Set(Of(o, f)) } : f \in tf }
     \cup UNION { { "invented in " \o f \o ": " \o ToString(e) : e \in Set(Of(o, f)) \ M!AllErrors(o.toolchain, f) } : f \in Files(o) \ dirs }
     \cup { "not ordered: " \o f : f \in { g \in Files(o) : ~M!Ordered(Of(o, g)) } }
     \cup { "reported twice in " \o f : f \in { g \in Files(o) : Len(Of(o, g)) # Cardinality(Set(Of(o, g))) } }
     \cup { "planted fault not reported: " \o ToString(x) : x \in { y \in Set(o.must) : ~\E e \in Set(Of(o, y.file)) : e.line = y.line } }
     \cup { "unusable directory without an error: " \o d : d \in dirs \ Files(o) }
     \cup { "finding lost: " \o ToString(x) : x \in want \ got }
     \cup { "finding invented: " \o ToString(x) : x \in got \ (want \cup Set(o.may)) }
=============================================================================
