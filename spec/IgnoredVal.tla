----------------------------- MODULE IgnoredVal -----------------------------
(* x.entries: configured entries; x.audit; x.form, x.targets; x.calls: with   *)
(* callee and results; x.got: whether the statement was reported.             *)
EXTENDS Conform, Integers, FiniteSets
S == INSTANCE Ignored WITH MaxResults <- 0, MaxCalls <- 0, GoesOn <- TRUE, AllErrors <- TRUE, OwnPlace <- TRUE, stmt <- << >>, audit <- FALSE, i <- 1, j <- 1, verdict <- "open"
Entries(x) == S!BuiltIn \cup { x.entries[q] : q \in DOMAIN x.entries }
Stmt(x) == [form |-> x.form, targets |-> x.targets,
            calls |-> [q \in DOMAIN x.calls |-> [listed |-> S!Listed(Entries(x), x.calls[q].callee), results |-> x.calls[q].results]]]
JudgeImpl(x) == LET want == S!Lost(Stmt(x), x.audit) IN
                IF want = x.got THEN {} ELSE { IF want THEN "not reported" ELSE "reported" }
=============================================================================
