------------------------------- MODULE Report -------------------------------
(* Report formats (C09) and SARIF documents (C10).                           *)
(*                                                                            *)
(* A finding f is a record                                                    *)
(*   rule  rank of the rule id in the order of the ids                        *)
(*   sev, conf  0..2     what, code, fix  contents (opaque)                   *)
(*   file  path as a sequence of components      start, end, col  position    *)
(*   cwe   weakness id or 0     nosec  shown although ignored                 *)
(*   supp  suppression records                                                *)
(* The report is one history: the documents written one after the other from  *)
(* the same list of findings (the command may print one and save another).    *)
EXTENDS Naturals, Sequences, FiniteSets

Rng(s) == { s[i] : i \in DOMAIN s }
Formats == {"json", "yaml", "csv", "junit-xml", "html", "text", "sonarqube", "golint", "sarif"}

Below(f, r) == Len(r) < Len(f) /\ SubSeq(f, 1, Len(r)) = r
Rel(f, r) == SubSeq(f, Len(r) + 1, Len(f))
\* every root that contains the file may be the one its path is relative to
RelPaths(f, roots) == { Rel(f, r) : r \in { x \in Rng(roots) : Below(f, x) } }

\* findings with suppression records are no open problems: only the formats
\* which can say so carry them; Sonar only knows files of its projects
Shown(fmt, f, roots) ==
  /\ fmt \in {"json", "sarif"} \/ f.supp = << >>
  /\ fmt = "sonarqube" => RelPaths(f.file, roots) # {}

Given(fmt, fs, roots) == SelectSeq(fs, LAMBDA f : Shown(fmt, f, roots))

\* what each format says about a finding
Carries(fmt) ==
  CASE fmt = "json" -> {"rule", "file", "start", "end", "col", "sev", "conf", "what", "code", "cwe", "nosec", "fix", "supp"}
    [] fmt = "yaml" -> {"rule", "file", "start", "end", "col", "sev", "conf", "what", "code", "cwe", "nosec", "fix"}
    [] fmt = "html" -> {"rule", "file", "start", "end", "sev", "conf", "what", "code", "cwe", "nosec"}
    [] fmt = "csv"  -> {"file", "start", "end", "sev", "conf", "what", "code", "cwe"}
    [] fmt = "junit-xml" -> {"file", "start", "end", "sev", "conf", "what", "code", "cwe", "fix"}
    [] fmt = "text" -> {"rule", "file", "start", "end", "sev", "conf", "what", "code", "cwe", "nosec", "fix", "marked"}
    [] fmt = "golint" -> {"rule", "file", "start", "col", "sev", "conf", "what", "cwe"}
    [] fmt = "sonarqube" -> {"rule", "rel", "start", "end", "sev", "what"}
    [] fmt = "sarif" -> {"rule", "rel", "start", "end", "col", "level", "what", "supp", "fix", "snip"}

Level(sev) == IF sev = 0 THEN "warning" ELSE "error"

\* record r of a document represents finding f
Represents(fmt, r, f, roots) ==
  \A k \in Carries(fmt) :
    CASE k = "rel" -> r.file \in (IF RelPaths(f.file, roots) = {} THEN {f.file} ELSE RelPaths(f.file, roots))
      [] k = "level" -> r.level = Level(f.sev)
      [] k = "marked" -> r.marked = [i \in 1 .. f.end - f.start + 1 |-> f.start + i - 1]  \* the lines pointed at
      [] OTHER -> r[k] = f[k]

\* JUnit groups the test cases by message, in order of first appearance
FirstWhat(fs, i) == \A j \in 1 .. i - 1 : fs[j].what # fs[i].what
RECURSIVE Grouped(_, _)
Grouped(fs, i) ==
  IF i > Len(fs) THEN << >>
  ELSE (IF FirstWhat(fs, i) THEN SelectSeq(fs, LAMBDA g : g.what = fs[i].what) ELSE << >>) \o Grouped(fs, i + 1)
Arranged(fmt, fs) == IF fmt = "junit-xml" THEN Grouped(fs, 1) ELSE fs

\* what is wrong with the records rs of a document for the findings fs
DocFaults(fmt, rs, fs, roots) ==
  LET g == Arranged(fmt, Given(fmt, fs, roots)) IN
  IF Len(rs) # Len(g) THEN {"number of findings"}
  ELSE { i \in DOMAIN g : ~Represents(fmt, rs[i], g[i], roots) }

-----------------------------------------------------------------------------
(* SARIF: the rule table, the taxonomy and the references between them *)

Min(S) == CHOOSE x \in S : \A y \in S : x <= y
RECURSIVE Ascending(_)
Ascending(S) == IF S = {} THEN << >> ELSE << Min(S) >> \o Ascending(S \ {Min(S)})
RuleTable(fs) == Ascending({ f.rule : f \in Rng(fs) })
Taxa(fs) == { f.cwe : f \in Rng(fs) } \ {0}
\* the index (from 0) of a rule in the table
IndexOf(t, r) == (CHOOSE i \in DOMAIN t : t[i] = r) - 1

Of(fs, r) == { f \in Rng(fs) : f.rule = r }

\* members the format requires of its objects
Required == [
  document |-> {"version", "runs"}, run |-> {"tool"}, tool |-> {"driver"}, component |-> {"name"},
  descriptor |-> {"id"}, result |-> {"message"}, location |-> {}, physicalLocation |-> {"artifactLocation"},
  artifactLocation |-> {"uri"}, region |-> {"startLine"}, suppression |-> {"kind"}, relationship |-> {"target"},
  fix |-> {"artifactChanges"}, artifactChange |-> {"artifactLocation", "replacements"}, replacement |-> {"deletedRegion"},
  deletedRegion |-> {"startLine"}, configuration |-> {}, componentReference |-> {"name"}, descriptorReference |-> {"id"},
  message |-> {"text"}, multiformat |-> {"text"}, content |-> {} ]

SarifFaults(d, fs) ==
  LET t == RuleTable(fs) IN
  (IF d.rules = t THEN {} ELSE {"rule table"})
  \cup (IF Len(d.results) = Len(fs) /\ \E i \in DOMAIN fs : d.results[i].ruleIndex # IndexOf(t, d.results[i].rule) THEN {"rule index"} ELSE {})
  \cup (IF Rng(d.taxa) = Taxa(fs) /\ Len(d.taxa) = Cardinality(Taxa(fs)) THEN {} ELSE {"taxa"})
  \cup { "relation to a weakness which is not in the taxonomy" : i \in { i \in DOMAIN d.relations : d.relations[i] # 0 /\ d.relations[i] \notin Rng(d.taxa) } }
  \cup (IF d.loose = 0 THEN {} ELSE {"reference which designates no weakness of a taxonomy"})
  \cup (IF d.sameGuids = 0 THEN {} ELSE {"GUID of two weaknesses"})
  \cup (IF d.supported THEN {} ELSE {"supported taxonomies"})
  \* what is said of a rule is said of one of its findings
  \cup (IF Len(d.rules) # Len(t) THEN {} ELSE
        { "weakness of a rule" : i \in { i \in DOMAIN t : d.relations[i] \notin { f.cwe : f \in Of(fs, t[i]) } } }
        \cup { "level of a rule" : i \in { i \in DOMAIN t : d.levels[i] \notin { Level(f.sev) : f \in Of(fs, t[i]) } } }
        \cup { "description of a rule" : i \in { i \in DOMAIN t : \A f \in Of(fs, t[i]) : Rng(d.described[i]) # {f.what} } })
  \cup (IF d.nulls = 0 THEN {} ELSE {"null members"})
  \cup (IF d.badUris = 0 THEN {} ELSE {"invalid uri"})
  \cup (IF d.badValues = 0 THEN {} ELSE {"invalid value"})
  \cup UNION { { ("missing " \o o.kind \o "." \o m) : m \in Required[o.kind] \ Rng(o.has) } : o \in Rng(d.objects) }
=============================================================================
