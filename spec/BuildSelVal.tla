----------------------------- MODULE BuildSelVal ----------------------------
(* o.tags; o.pkgs: sequence of [dir, files: sequence of [name, c, n]];        *)
(* o.found: files with a finding as "dir/name" (with repetition);             *)
(* o.errs: number of errors; o.numFiles: file counter.                        *)
EXTENDS Conform, FiniteSets
M == INSTANCE BuildSel WITH Pkgs <- {}, TagSets <- {}, K <- 1, Shared <- FALSE, tags <- {}, conf <- {}, jobs <- {}, wpc <- << >>, cur <- << >>, mine <- << >>, loaded <- << >>
Set(s) == { s[i] : i \in DOMAIN s }
JudgeImpl(o) ==
  LET want == UNION { { o.pkgs[i].dir \o "/" \o f.name : f \in M!Selected(Set(o.pkgs[i].files), Set(o.tags)) } : i \in DOMAIN o.pkgs }
      got == Set(o.found)
  IN { "not analysed: " \o f : f \in want \ got }
     \cup { "does not belong to the build: " \o f : f \in got \ want }
     \cup (IF Len(o.found) = Cardinality(got) THEN {} ELSE {"a file is analysed twice"})
     \cup (IF o.numFiles = Cardinality(want) THEN {} ELSE {"file counter " \o ToString(o.numFiles) \o " for " \o ToString(Cardinality(want)) \o " files"})
     \cup (IF o.errs = 0 THEN {} ELSE {"errors reported for a correct build"})
=============================================================================
