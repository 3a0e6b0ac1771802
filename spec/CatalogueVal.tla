---------------------------- MODULE CatalogueVal ----------------------------
(* Observations of the real system against the catalogue.                    *)
(* defs:    what a generator of rules offers: kind, track, rules with id,     *)
(*          key, built (identifier of the built rule), text (description),   *)
(*          cwe, known (the weakness is in the weakness catalogue)           *)
(* list:    identifiers named by the usage text or the documentation, with   *)
(*          their texts and, for the command, whether they are those of the  *)
(*          library                                                          *)
(* weak:    an entry of the weakness catalogue by number                     *)
(* foreign: identifiers that are no rules and their weaknesses               *)
(* finds:   findings of one scan under a selection (sel = {} means all)      *)
(* alone:   findings of all rules against those of each rule alone           *)
(* report:  identifier and weakness of findings in a report                  *)
EXTENDS Conform, Integers, FiniteSets
C == INSTANCE Catalogue WITH Ids <- {}, Weak <- {}, Careful <- TRUE, OwnData <- TRUE, defined <- {}, described <- {}, weakness <- << >>, catalogue <- {},
                             offered <- {}, built <- {}, last <- "none", found <- {}, shown <- {}
Set(s) == { s[i] : i \in DOMAIN s }
If(c, t) == IF c THEN {t} ELSE {}
Count(s, e) == Cardinality({ i \in DOMAIN s : s[i] = e })
WantIds(kind) == CASE kind = "rules" -> C!Named \ C!Analyzers [] kind = "analyzers" -> C!Analyzers [] OTHER -> C!Named
Defs(x) ==
  LET ids == { r.id : r \in Set(x.rules) } IN
     { "not offered: " \o i : i \in WantIds(x.kind) \ ids }
     \cup { "offered but unknown: " \o i : i \in ids \ WantIds(x.kind) }
     \cup UNION { If(r.key # r.id, r.id \o " is offered as " \o r.key) \cup If(r.built # r.id, r.id \o " builds " \o r.built)
                  \cup If(r.text = "", r.id \o " has no description")
                  \cup If(r.id \in C!Named /\ r.cwe # C!Rules[r.id].cwe, r.id \o " has the weakness " \o r.cwe)
                  \cup If(~r.known, "the weakness of " \o r.id \o " is not in the catalogue") : r \in Set(x.rules) }
     \cup If(Cardinality(ids) # Len(x.rules), "an identifier is used twice")
List(x) ==
  LET ids == { r.id : r \in Set(x.rules) } IN
     { "not named: " \o i : i \in C!Named \ ids } \cup { "named but unknown: " \o i : i \in ids \ C!Named }
     \cup { r.id \o " has no text" : r \in { r \in Set(x.rules) : r.text = "" } }
     \cup { r.id \o " has the text of another rule" : r \in { r \in Set(x.rules) : ~r.same } }
     \cup If(Cardinality(ids) # Len(x.rules), "an identifier is named twice")
Weak(x) == { "entry " \o w.n \o ": " \o w.id : w \in { w \in Set(x.entries) : w.id # w.n \/ w.name = "" \/ w.desc = "" \/ w.url # "https://cwe.mitre.org/data/definitions/" \o w.n \o ".html" \/ w.text # "CWE-" \o w.n } }
           \cup { "no entry " \o C!Rules[r].cwe : r \in { r \in C!Named : \A w \in Set(x.entries) : w.n # C!Rules[r].cwe } }
Foreign(x) == { "weakness of " \o f.id \o ": " \o f.cwe : f \in { f \in Set(x.ids) : f.cwe # "" } }
Finding(f, sel) ==
  IF f.rule \notin C!Named THEN {"finding of no rule: " \o ToString(f)}
  ELSE If(sel # {} /\ f.rule \notin sel, "finding of " \o f.rule \o ", which was not selected")
       \cup If(f.cwe # C!Rules[f.rule].cwe, "finding of " \o f.rule \o " with the weakness " \o f.cwe)
       \cup If(f.sc \notin C!Rules[f.rule].sc, "finding of " \o f.rule \o " is " \o f.sc)
       \cup If(~f.text, "finding of " \o f.rule \o " without a proper text")
       \cup If(~f.place, "finding of " \o f.rule \o " without a place")
Finds(x) == UNION { Finding(f, Set(x.sel)) : f \in Set(x.finds) }
Alone(x) == { "found by " \o x.rule \o " alone, but not as one of all: " \o e : e \in { e \in Set(x.alone) : Count(x.alone, e) > Count(x.all, e) } }
            \cup { "found as one of all, but not by " \o x.rule \o " alone: " \o e : e \in { e \in Set(x.all) : Count(x.all, e) > Count(x.alone, e) } }
Report(x) == { x.fmt \o ": " \o f.rule \o " with the weakness " \o f.cwe : f \in { f \in Set(x.finds) : f.rule \notin C!Named \/ f.cwe # C!Rules[f.rule].cwe } }
JudgeImpl(x) == CASE x.what = "defs" -> Defs(x) [] x.what = "list" -> List(x) [] x.what = "weak" -> Weak(x) [] x.what = "foreign" -> Foreign(x)
                  [] x.what = "finds" -> Finds(x) [] x.what = "alone" -> Alone(x) [] x.what = "report" -> Report(x)
=============================================================================
