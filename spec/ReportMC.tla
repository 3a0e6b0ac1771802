------------------------------ MODULE ReportMC ------------------------------
(* Design of the report writers: the incremental SARIF rule table and the    *)
(* shared list of findings behind a sequence of documents.                    *)
EXTENDS Report, Util

CONSTANTS Fixed   \* FALSE: the writers as they were (indexes recorded while inserting, list filtered in place)

MaxN == EnvInt("N", 4)
Ranks == 1 .. 3

VARIABLES todo,     \* findings still to be taken by the SARIF builder
          given,    \* all findings
          rules, results, \* the document under construction
          docs, shared    \* documents written and the list they are written from
vars == <<todo, given, rules, results, docs, shared>>

F(r, s) == [rule |-> r, supp |-> s, file |-> <<1, 2>>]
Init == /\ given \in UNION { [1 .. n -> { F(r, s) : r \in Ranks, s \in {<< >>, <<1>>} }] : n \in 0 .. MaxN }
        /\ todo = given /\ rules = << >> /\ results = << >> /\ docs = << >> /\ shared = given

InsAt(t, p, x) == SubSeq(t, 1, p - 1) \o <<x>> \o SubSeq(t, p, Len(t))
\* first position whose rule is not smaller; the old code stayed at the front when there is none
Pos(t, r) == LET G == { i \in DOMAIN t : t[i] >= r } IN IF G = {} THEN (IF Fixed THEN Len(t) + 1 ELSE 1) ELSE Min(G)
Build == /\ todo # << >>
         /\ LET r == Head(todo).rule p == Pos(rules, r) IN
            /\ rules' = IF p <= Len(rules) /\ rules[p] = r THEN rules ELSE InsAt(rules, p, r)
            /\ results' = Append(results, [rule |-> r, ruleIndex |-> p - 1])
         /\ todo' = Tail(todo)
         /\ UNCHANGED <<given, docs, shared>>
\* indexes are filled in when all rules are known
Final == IF Fixed THEN [i \in DOMAIN results |-> [results[i] EXCEPT !.ruleIndex = IndexOf(rules, results[i].rule)]] ELSE results

Write(fmt) == /\ Len(docs) < 2
              /\ LET out == Given(fmt, shared, << <<1>> >>) IN
                 /\ docs' = Append(docs, [fmt |-> fmt, fs |-> out])
                 /\ shared' = IF Fixed \/ fmt \in {"json", "sarif"} THEN shared ELSE SelectSeq(shared, LAMBDA f : f.supp = << >>)
              /\ UNCHANGED <<given, todo, rules, results>>
Next == Build \/ (todo = << >> /\ \E fmt \in {"json", "text", "csv", "sarif"} : Write(fmt))
Spec == Init /\ [][Next]_vars

TableRight == todo = << >> => rules = RuleTable(given)
IndexesRight == todo = << >> => \A i \in DOMAIN Final : rules[Final[i].ruleIndex + 1] = Final[i].rule
DocsRight == \A i \in DOMAIN docs : docs[i].fs = Given(docs[i].fmt, given, << <<1>> >>)

Cases == { [rules |-> [i \in DOMAIN g |-> g[i].rule], supp |-> [i \in DOMAIN g |-> Len(g[i].supp)]] :
             g \in UNION { [1 .. n -> { F(r, s) : r \in Ranks, s \in {<< >>, <<1>>} }] : n \in 0 .. MaxN } }
ASSUME Emit(Cases)
=============================================================================
