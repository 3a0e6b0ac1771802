----------------------------- MODULE AutofixVal -----------------------------
(* x.conf; x.texts: of the findings; x.asks: text (0: none of them), outcome, *)
(* key; x.keys: given; x.fixes: the request whose answer a finding carries    *)
(* (0: no suggestion, -1: something else); x.same: the findings are otherwise *)
(* as without suggestions; x.exit: so is the exit status; x.logged, x.ended.  *)
EXTENDS Conform, Integers, FiniteSets
A == INSTANCE Autofix WITH Rules <- {}, Texts <- {}, MaxFindings <- 0, MaxAgain <- 0, ByText <- TRUE, Fresh <- TRUE, Careful <- TRUE, BothKeys <- TRUE,
       conf <- [provider |-> "none", flag |-> FALSE, env |-> FALSE], findings <- << >>, fixes <- << >>, asks <- << >>, tried <- {}, pos <- 1, state <- "scanned", logged <- FALSE, report <- << >>, ok <- TRUE
If(c, t) == IF c THEN {t} ELSE {}
JudgeImpl(x) ==
  IF ~x.ended THEN {"no report"} ELSE
     If(~x.same, "the findings are not what they are without suggestions") \cup If(~x.exit, "the exit status is not what it is without suggestions")
     \cup If(~A!Asked(x.texts, x.asks), "asks about something else") \cup If(~A!Once(x.asks), "asks twice about the same")
     \cup If(~A!Exact(x.texts, x.asks, x.fixes), "carries a suggestion which is not its own")
     \cup If(A!Wanted(x.conf) /\ ~A!Failed(x.asks) /\ ~A!First(x.texts, x.asks, x.fixes), "an answer is lost")
     \cup If(A!Wanted(x.conf) /\ ~A!Full(x.texts, x.asks, x.fixes), "lacks a suggestion")
     \cup If(~A!Wanted(x.conf) /\ x.asks # << >>, "asks although it should not")
     \cup If((A!Failed(x.asks) \/ (x.conf.provider = "other" /\ A!HasKey(x.conf))) /\ ~x.logged, "the failure is not told")
     \cup If(\E q \in DOMAIN x.asks : ~\E k \in DOMAIN x.keys : x.keys[k] = x.asks[q].key, "uses another key")
=============================================================================
