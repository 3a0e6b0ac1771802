------------------------------ MODULE TaintVal ------------------------------
(* x.rule, x.args: the arguments looked at, x.decls, x.sql: the kinds of      *)
(* constants with the text of a query; x.got: whether the call was reported.  *)
EXTENDS Conform, Integers, FiniteSets
S == INSTANCE Taint WITH MaxOps <- 1, OwnValue <- TRUE, Named <- TRUE, Once <- TRUE, Sides <- TRUE, use <- << >>, decls <- << >>, todo <- << >>, seen <- {}, verdict <- "open"
Want(x) == S!Worst({ S!Verdict(x.rule, x.decls, x.args[q], S!ToSetOf(x.sql)) : q \in DOMAIN x.args })
JudgeImpl(x) == LET w == Want(x) IN
                IF w = "report" /\ ~x.got THEN {"not reported"} ELSE IF w = "quiet" /\ x.got THEN {"reported"} ELSE {}
=============================================================================
