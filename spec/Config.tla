------------------------------- MODULE Config -------------------------------
(* The configuration (C14): a document of sections, one of which ("global")  *)
(* holds named options; the operations of the configuration object on it;    *)
(* and what the options mean for a scan, whatever their source.              *)
(*                                                                           *)
(* A configuration is [glob, rules]: partial functions from option to text   *)
(* and from section name to (canonical) value.  A document which is read is  *)
(* [has, glob, rules]: has tells whether it has a global section at all; an  *)
(* option with the value Null is not set.                                    *)
EXTENDS Util, Integers

Null == "<null>"
NoFun == [x \in {} |-> ""]
\* partial functions as functions over their domain
Over(f, g) == [x \in DOMAIN f \cup DOMAIN g |-> IF x \in DOMAIN g THEN g[x] ELSE f[x]]
Known(g) == [x \in { y \in DOMAIN g : g[y] # Null } |-> g[x]]

New == [glob |-> NoFun, rules |-> NoFun]
\* reading replaces the sections the document mentions and leaves the others
Read(c, d) == [glob |-> IF d.has THEN Known(d.glob) ELSE c.glob, rules |-> Over(c.rules, d.rules)]
SetGlobal(c, k, v) == [c EXCEPT !.glob = Over(c.glob, [x \in {k} |-> v])]
SetSection(c, k, v) == [c EXCEPT !.rules = Over(c.rules, [x \in {k} |-> v])]
\* what writing leaves in the file
Saved(c) == [has |-> TRUE, glob |-> c.glob, rules |-> c.rules]
Reload(c) == Read(New, Saved(c))

Has(c, k) == k \in DOMAIN c.glob
Value(c, k) == IF Has(c, k) THEN c.glob[k] ELSE ""
On(v) == v \in {"true", "enabled"}
Enabled(c, k) == Has(c, k) /\ On(c.glob[k])

Apply(c, op) ==
  CASE op.op = "read" -> Read(c, op.doc)
    [] op.op = "global" -> SetGlobal(c, op.k, op.v)
    [] op.op = "section" -> SetSection(c, op.k, op.v)
    [] op.op = "reload" -> Reload(c)

----------------------------------------------------------------------------
\* Meaning of the options for a scan.  c is the configuration, f the flags:
\* f.nosec, f.show, f.audit \in {"", "true", "false"} ("" not given), f.tag.
Switch == {"true", "enabled", "false", "disabled", ""}
Chosen(flag, conf) == IF flag = "" THEN conf ELSE flag = "true"
Strip(t) == IF Len(t) > 0 /\ SubSeq(t, 1, 1) = "#" THEN SubSeq(t, 2, Len(t)) ELSE t
Off(c, f)   == Chosen(f.nosec, Enabled(c, "nosec"))
Shown(c, f) == Chosen(f.show, Enabled(c, "show-ignored"))
Audit(c, f) == Chosen(f.audit, Enabled(c, "audit"))
AltOf(c, f) == IF f.tag # "" THEN f.tag ELSE Value(c, "#nosec")
Tags(c, f)  == (IF Value(c, "nosec") \in Switch THEN {"nosec"} ELSE {Strip(c.glob["nosec"])})
               \cup (IF AltOf(c, f) = "" THEN {} ELSE {Strip(AltOf(c, f))})

----------------------------------------------------------------------------
\* Histories of one configuration object
CONSTANTS Depth
Opts == {"a", "b"}
Vals == {"true", "x"}
Docs == [has : {FALSE}, glob : {NoFun}, rules : {NoFun, [x \in {"R"} |-> "1"]}]
        \cup [has : {TRUE}, glob : {NoFun, [x \in {"a"} |-> "true"], [x \in {"a"} |-> Null], [x \in {"a", "b"} |-> "x"]},
              rules : {NoFun, [x \in {"R"} |-> "2"]}]
Ops == [op : {"read"}, doc : Docs] \cup [op : {"global"}, k : Opts, v : Vals]
       \cup [op : {"section"}, k : {"R", "S"}, v : {"3"}] \cup {[op |-> "reload"]}
VARIABLES conf, hist
vars == <<conf, hist>>
Init == conf = New /\ hist = << >>
Do(o) == Len(hist) < Depth /\ conf' = Apply(conf, o) /\ hist' = Append(hist, o)
Next == \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

SavingKeeps == Reload(conf) = conf
\* an operation changes only what it mentions
Mentions(o) == CASE o.op = "read" -> (IF o.doc.has THEN Opts ELSE {}) \cup DOMAIN o.doc.rules
                 [] o.op \in {"global", "section"} -> {o.k}
                 [] OTHER -> {}
OnlyMentioned == [][\A k \in Opts : LET o == hist'[Len(hist')] IN k \notin Mentions(o) => Value(conf', k) = Value(conf, k)]_vars
LastWins == [][LET o == hist'[Len(hist')] IN o.op = "global" => Value(conf', o.k) = o.v]_vars
NoNull == \A k \in DOMAIN conf.glob : conf.glob[k] # Null
FlagWins == \A fl \in {"true", "false"} : Chosen(fl, Enabled(conf, "a")) = (fl = "true")

----------------------------------------------------------------------------
\* cases for the command: values of the options in the file and by flag
DocVals == [nosec : {"-", "true", "enabled", "false", "disabled", "True", "1", "mytag", "#mytag", "json:true", "json:false", "json:null", "json:1"},
            show : {"-", "true", "enabled", "false", "json:true", "ENABLED"},
            audit : {"-", "true", "enabled", "no", "json:true", "json:null"},
            alt : {"-", "alt", "#alt", "", "json:null"}]
FlagVals == [nosec : {"", "true", "false"}, show : {"", "true", "false"}, audit : {"", "true", "false"}, tag : {"", "alt", "#alt", "other"}]
D0 == [nosec |-> "-", show |-> "-", audit |-> "-", alt |-> "-"]
F0 == [nosec |-> "", show |-> "", audit |-> "", tag |-> ""]
Away(x, y) == Cardinality({ k \in DOMAIN x : x[k] # y[k] })
DocNear == { d \in DocVals : Away(d, D0) <= 2 }
FlagNear == { f \in FlagVals : Away(f, F0) <= 2 }
CliCases == { x \in DocNear \X FlagNear : Away(x[1], D0) + Away(x[2], F0) <= 2 }
Histories == UNION { [1..n -> Ops] : n \in 1..EnvInt("HIST", 2) }
ASSUME Emit({ [kind |-> "cli", doc |-> x[1], flags |-> x[2]] : x \in CliCases } \cup { [kind |-> "api", ops |-> h] : h \in Histories })
=============================================================================
