-------------------------------- MODULE Kinds -------------------------------
(* Test, generated and non-Go files (C13).  A file of a package is            *)
(* [test: "no" | "in" | "ext", marker, cgo, lines].  Markers name where and   *)
(* how the generated-code line is written.                                    *)
EXTENDS Util
Markers == { "none",        \* no marker
             "top",         \* // Code generated by x. DO NOT EDIT.   before the package clause
             "afterdoc",    \* the same as a later line of the file comment
             "tagged",      \* after a build constraint
             "body",        \* after the package clause
             "block",       \* in a /* */ comment
             "nodot",       \* without the final full stop
             "lower",       \* in another letter case
             "indented",    \* text before "Code"
             "trailing",    \* text after the full stop
             "empty" }      \* // Code generated  DO NOT EDIT.
Generated(f) == f.marker \in {"top", "afterdoc", "tagged", "empty"}
\* analysed by rules and analyzers
Analysed(f, tests, exgen) == /\ ~f.cgo
                             /\ f.test = "no" \/ tests
                             /\ ~(exgen /\ Generated(f))

Shapes == [test : {"no", "in", "ext"}, marker : Markers, cgo : {FALSE}]
VARIABLES files, tests, exgen, todo, variants, done, numFiles
vars == <<files, tests, exgen, todo, variants, done, numFiles>>
\* With tests a package is loaded on its own and again together with its tests;
\* whatever the overlap, each file is taken once.
Variant(v, F) == CASE v = "pkg" -> { f \in F : f.test = "no" }
                   [] v = "tested" -> { f \in F : f.test \in {"no", "in"} }
                   [] v = "ext" -> { f \in F : f.test = "ext" }
Init == /\ files \in { {a, b} : a \in Shapes, b \in Shapes } /\ tests \in BOOLEAN /\ exgen \in BOOLEAN
        /\ variants = IF tests THEN {"pkg", "tested", "ext"} ELSE {"pkg"}
        /\ todo = {} /\ done = {} /\ numFiles = 0
Take == \E v \in variants :
          LET F == { f \in Variant(v, files) : Analysed(f, tests, exgen) } \ done IN
          /\ variants' = variants \ {v} /\ done' = done \cup F /\ numFiles' = numFiles + Cardinality(F)
          /\ UNCHANGED <<files, tests, exgen, todo>>
Spec == Init /\ [][Take]_vars
Exact == variants = {} => /\ done = { f \in files : Analysed(f, tests, exgen) }
                          /\ numFiles = Cardinality(done)
Only == \A f \in done : Analysed(f, tests, exgen)

ASSUME Emit({ [f1 |-> a, f2 |-> b, tests |-> t, exgen |-> g] :
   a \in Shapes, b \in [test : {"no", "in", "ext"}, marker : {"none", "top"}, cgo : BOOLEAN], t \in BOOLEAN, g \in BOOLEAN })
=============================================================================
