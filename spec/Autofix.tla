------------------------------ MODULE Autofix ------------------------------
(* Suggested fixes (C24).  After a scan, the findings that will be reported   *)
(* are offered to a service, which may answer, fail, be unavailable for a     *)
(* while (asked again), or stay silent (given up).  A finding is [rule, text].*)
EXTENDS Util, Integers
CONSTANTS Rules, Texts, MaxFindings, MaxAgain,
          ByText,       \* suggestions are remembered by text (not by rule)
          Fresh,        \* a suggestion is attached to the finding it was asked for (not to the next one)
          Careful,      \* a failure leaves the findings as they are
          BothKeys      \* the key may be given by flag or environment
Providers == {"none", "gemini", "other"}
Confs == [provider : Providers, flag : BOOLEAN, env : BOOLEAN]
HasKey(c) == c.env \/ c.flag
Wanted(c) == c.provider = "gemini" /\ HasKey(c)
Finding == [rule : Rules, text : Texts]
Outcomes == {"answer", "error", "again", "late"}
Failures == {"error", "late"}

VARIABLES conf, findings, fixes, asks, tried, pos, state, logged, report, ok
avars == <<conf, findings, fixes, asks, tried, pos, state, logged, report, ok>>
Lists == UNION { [1..n -> Finding] : n \in 0..MaxFindings }
AInit == /\ conf \in Confs /\ findings \in Lists /\ fixes = [q \in DOMAIN findings |-> 0] /\ asks = << >> /\ tried = {}
         /\ pos = 1 /\ state = "scanned" /\ logged = FALSE /\ report = << >> /\ ok = (findings = << >>)
Key(f) == IF ByText THEN f.text ELSE f.rule
Uses(c) == c.provider = "gemini" /\ (c.env \/ (BothKeys /\ c.flag))
Start == /\ state = "scanned" /\ state' = IF Uses(conf) THEN "asking" ELSE "asked"
         /\ logged' = (conf.provider = "other" /\ HasKey(conf))
         /\ UNCHANGED <<conf, findings, fixes, asks, tried, pos, report, ok>>
(* answers are numbered by the request they belong to *)
AnswersFor(k) == { q \in DOMAIN asks : asks[q].outcome = "answer" /\ Key(asks[q].finding) = k }
Reuse == /\ state = "asking" /\ pos <= Len(findings) /\ AnswersFor(Key(findings[pos])) # {}
         /\ fixes' = [fixes EXCEPT ![pos] = CHOOSE q \in AnswersFor(Key(findings[pos])) : TRUE] /\ pos' = pos + 1
         /\ UNCHANGED <<conf, findings, asks, tried, state, logged, report, ok>>
Ask(o) == /\ state = "asking" /\ pos <= Len(findings) /\ AnswersFor(Key(findings[pos])) = {} /\ findings[pos].text \notin tried
          /\ o = "again" => Cardinality({ q \in DOMAIN asks : asks[q].outcome = "again" }) < MaxAgain
          /\ asks' = Append(asks, [finding |-> findings[pos], text |-> findings[pos].text, outcome |-> o])
          /\ CASE o = "answer" -> /\ LET at == IF Fresh \/ pos = Len(findings) THEN pos ELSE pos + 1 IN fixes' = [fixes EXCEPT ![at] = Len(asks) + 1]
                                  /\ pos' = pos + 1 /\ UNCHANGED <<tried, state, logged, findings>>
               [] o = "again" -> UNCHANGED <<fixes, pos, tried, state, logged, findings>>
               [] OTHER -> /\ logged' = TRUE /\ tried' = tried \cup {findings[pos].text} /\ state' \in {"asking", "asked"}
                           /\ findings' = IF Careful THEN findings ELSE SubSeq(findings, 1, pos - 1)
                           /\ fixes' = IF Careful THEN fixes ELSE SubSeq(fixes, 1, pos - 1)
                           /\ UNCHANGED pos
          /\ UNCHANGED <<conf, report, ok>>
(* what went unanswered is not asked again *)
Pass == /\ state = "asking" /\ pos <= Len(findings) /\ findings[pos].text \in tried /\ AnswersFor(Key(findings[pos])) = {} /\ pos' = pos + 1
        /\ UNCHANGED <<conf, findings, fixes, asks, tried, state, logged, report, ok>>
Enough == /\ state = "asking" /\ pos > Len(findings) /\ state' = "asked"
          /\ UNCHANGED <<conf, findings, fixes, asks, tried, pos, logged, report, ok>>
Report == /\ state = "asked" /\ state' = "reported" /\ report' = findings
          /\ UNCHANGED <<conf, findings, fixes, asks, tried, pos, logged, ok>>
ANext == Start \/ Reuse \/ (\E o \in Outcomes : Ask(o)) \/ Pass \/ Enough \/ Report
ASpec == AInit /\ [][ANext]_avars /\ WF_avars(ANext)

Failed(as) == \E q \in DOMAIN as : as[q].outcome \in Failures
(* What may be seen at the end: texts of the findings, requests, and the request whose answer each finding carries (0: none). *)
Exact(texts, as, fx) == \A q \in DOMAIN texts : fx[q] # 0 => /\ fx[q] \in DOMAIN as /\ as[fx[q]].outcome = "answer" /\ as[fx[q]].text = texts[q]
Once(as) == \A p, q \in DOMAIN as : p # q /\ as[p].text = as[q].text => "again" \in {as[p].outcome, as[q].outcome}
Asked(texts, as) == \A q \in DOMAIN as : \E p \in DOMAIN texts : texts[p] = as[q].text
Full(texts, as, fx) == Failed(as) \/ \A q \in DOMAIN texts : fx[q] # 0
First(texts, as, fx) == \A q \in DOMAIN as : as[q].outcome = "answer" => \E p \in DOMAIN texts : fx[p] = q
TextsOf == [q \in DOMAIN findings |-> findings[q].text]
End == state = "reported"
Attached == End => Exact(TextsOf, asks, fixes) /\ First(TextsOf, asks, fixes) /\ (Wanted(conf) => Full(TextsOf, asks, fixes))
Sparing == Once(asks) /\ Asked(TextsOf, asks)
Kept == [][findings' = findings /\ ok' = ok]_avars
Reports == End => report = findings
OnlyWhenWanted == (asks # << >> => Wanted(conf)) /\ (End /\ Wanted(conf) /\ findings # << >> => asks # << >>)
Told == Failed(asks) => logged
Comes == <>End
(* Scenarios to play to the real system: findings, the outcomes of the requests in their order, and ways to ask. *)
Scripts == UNION { [1..m -> {"answer", "error", "again"}] : m \in 1..MaxFindings }
Emitted == Emit({[lists |-> SetToSeq(Lists), scripts |-> SetToSeq(Scripts), confs |-> SetToSeq(Confs)]})
ASSUME Emitted
=============================================================================
