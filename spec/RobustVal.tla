------------------------------ MODULE RobustVal -----------------------------
(* x.tree: the kinds of files as in Robust.tla; x.outcome: how the scan      *)
(* ended; x.ast: pairs of package and file whose canary was reported;        *)
(* x.whole: packages whose second canary was; x.errs: packages for which     *)
(* errors were reported; x.exit: the exit status.                            *)
EXTENDS Conform, Integers
R == INSTANCE Robust WITH Crashes <- FALSE, GivesUp <- FALSE, Forgets <- FALSE,
                          tree <- << >>, at <- 1, phase <- "", file <- 1, ast <- {}, whole <- {}, errs <- {}
Set(s) == { s[i] : i \in DOMAIN s }
JudgeImpl(x) ==
  IF x.outcome # "done" THEN {"the scan ended with " \o x.outcome}
  ELSE { "the finding in file " \o ToString(c[2]) \o " of package " \o ToString(c[1]) \o " is missing" : c \in R!Must(x.tree) \ Set(x.ast) }
       \cup { "the finding in package " \o ToString(p) \o " is missing" : p \in R!MustWhole(x.tree) \ Set(x.whole) }
       \cup { "no errors are reported for package " \o ToString(p) : p \in { p \in DOMAIN x.tree : R!Faulty(x.tree[p]) } \ Set(x.errs) }
       \cup (IF x.exit # 1 THEN {"the exit status is " \o ToString(x.exit)} ELSE {})
=============================================================================
