----------------------------- MODULE SecretsVal -----------------------------
(* x.pattern, x.ignore: the configuration; x.binds: target, name (character   *)
(* codes), kind, ge/half/per/empty, format and cut; x.got: reported or not.   *)
EXTENDS Conform, Integers, FiniteSets
S == INSTANCE Secrets WITH MaxBinds <- 1, OwnValue <- TRUE, AnyName <- TRUE, AllBinds <- TRUE, binds <- << >>, i <- 1, j <- 1, verdict <- "open"
Facts(x) == [q \in DOMAIN x.binds |-> LET b == x.binds[q] IN
               [target |-> b.target, match |-> S!Matches(b.name, x.pattern), kind |-> IF b.empty /\ b.kind = "literal" THEN "named" ELSE b.kind,
                high |-> S!High(b, x.ignore), format |-> S!Recognised(b.format, b.cut)]]
JudgeImpl(x) == LET w == S!Verdict(Facts(x)) IN
                IF w = "report" /\ ~x.got THEN {"not reported"} ELSE IF w = "quiet" /\ x.got THEN {"reported"} ELSE {}
=============================================================================
