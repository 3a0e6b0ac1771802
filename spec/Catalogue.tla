------------------------------ MODULE Catalogue ------------------------------
(* The life of a rule and of its findings: a rule is defined, described,      *)
(* given a weakness and offered (by the library, the command and the          *)
(* documentation); scans build the selected rules, findings carry what their  *)
(* own rule declares, and reports show them.                                  *)
EXTENDS Util, Integers
CONSTANTS Ids,          \* identifiers there may be
          Weak,         \* weaknesses there may be
          Careful,      \* a rule is offered only when it is complete
          OwnData       \* a finding is labelled by the rule that produced it, not by the one built last
VARIABLES defined, described, weakness, catalogue, offered, built, last, found, shown
cvars == <<defined, described, weakness, catalogue, offered, built, last, found, shown>>
None == "none"
CInit == /\ defined = {} /\ described = {} /\ weakness = [i \in Ids |-> None] /\ catalogue = {} /\ offered = {}
         /\ built = {} /\ last = None /\ found = {} /\ shown = {}
Define(i) == /\ i \notin defined /\ defined' = defined \cup {i}
             /\ UNCHANGED <<described, weakness, catalogue, offered, built, last, found, shown>>
Describe(i) == /\ i \in defined \ described /\ described' = described \cup {i}
               /\ UNCHANGED <<defined, weakness, catalogue, offered, built, last, found, shown>>
Assign(i, w) == /\ i \in defined /\ weakness[i] = None /\ weakness' = [weakness EXCEPT ![i] = w]
                /\ UNCHANGED <<defined, described, catalogue, offered, built, last, found, shown>>
Record(w) == /\ w \notin catalogue /\ catalogue' = catalogue \cup {w}
             /\ UNCHANGED <<defined, described, weakness, offered, built, last, found, shown>>
Complete(i) == i \in described /\ weakness[i] \in catalogue
Offer(i) == /\ i \in defined \ offered /\ (Careful => Complete(i)) /\ offered' = offered \cup {i}
            /\ UNCHANGED <<defined, described, weakness, catalogue, built, last, found, shown>>
Build(i) == /\ i \in offered \ built /\ built' = built \cup {i} /\ last' = i
            /\ UNCHANGED <<defined, described, weakness, catalogue, offered, found, shown>>
Fire(i) == /\ i \in built
           /\ LET k == IF OwnData THEN i ELSE last IN found' = found \cup {[by |-> i, rule |-> k, cwe |-> weakness[k]]}
           /\ UNCHANGED <<defined, described, weakness, catalogue, offered, built, last, shown>>
Show == /\ shown # found /\ shown' = found
        /\ UNCHANGED <<defined, described, weakness, catalogue, offered, built, last, found>>
CNext == (\E i \in Ids : Define(i) \/ Describe(i) \/ Offer(i) \/ Build(i) \/ Fire(i) \/ \E w \in Weak : Assign(i, w)) \/ (\E w \in Weak : Record(w)) \/ Show
CSpec == CInit /\ [][CNext]_cvars
Labelled == \A f \in found \cup shown : f.rule = f.by /\ f.cwe = weakness[f.by] /\ f.cwe \in catalogue
Offers == \A i \in offered : i \in described /\ weakness[i] \in catalogue
Stable == [][\A i \in Ids : weakness[i] # None => weakness'[i] = weakness[i]]_cvars

(* The rules of this system: weakness, and severity x confidence of findings. *)
R(w, sc) == [cwe |-> w, sc |-> sc]
LL == "LOW LOW"     LM == "LOW MEDIUM"     LH == "LOW HIGH"
ML == "MEDIUM LOW"  MM == "MEDIUM MEDIUM"  MH == "MEDIUM HIGH"
HL == "HIGH LOW"    HM == "HIGH MEDIUM"    HH == "HIGH HIGH"
Rules == [ G101 |-> R("798", {HL}), G102 |-> R("200", {MH}), G103 |-> R("242", {LH}), G104 |-> R("703", {LH}), G106 |-> R("322", {MH}),
           G107 |-> R("88", {MM}), G108 |-> R("200", {HH}), G109 |-> R("190", {HM}), G110 |-> R("409", {MM}), G111 |-> R("22", {MM}),
           G112 |-> R("400", {ML}), G114 |-> R("676", {MH}), G115 |-> R("190", {HM}),
           G201 |-> R("89", {MH}), G202 |-> R("89", {MH}), G203 |-> R("79", {ML}), G204 |-> R("78", {MH}),
           G301 |-> R("276", {MH}), G302 |-> R("276", {MH}), G303 |-> R("377", {MH}), G304 |-> R("22", {MH}), G305 |-> R("22", {MH}),
           G306 |-> R("276", {MH}), G307 |-> R("276", {MH}),
           G401 |-> R("328", {MH}), G402 |-> R("295", {HL, HH, ML, MH}), G403 |-> R("310", {MH}), G404 |-> R("338", {HM}), G405 |-> R("327", {MH}),
           G406 |-> R("328", {MH}), G407 |-> R("1204", {HL, HM, HH}),
           G501 |-> R("327", {MH}), G502 |-> R("327", {MH}), G503 |-> R("327", {MH}), G504 |-> R("327", {MH}), G505 |-> R("327", {MH}),
           G506 |-> R("327", {MH}), G507 |-> R("327", {MH}), G601 |-> R("118", {MM}), G602 |-> R("118", {LH}) ]
Analyzers == {"G115", "G407", "G602"}
Named == DOMAIN Rules
=============================================================================
