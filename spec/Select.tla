------------------------------- MODULE Select -------------------------------
(* Rule selection (C03).  A list is a set of rule ids; the empty set means   *)
(* "no list given".  flag = command line, conf = configuration file.         *)
EXTENDS Util

\* the list in force: the command line replaces the configured one
InForce(flag, conf) == IF flag # {} THEN flag ELSE conf

Selected(all, o) ==
  LET inc == InForce(o.incFlag, o.incConf)
      exc == InForce(o.excFlag, o.excConf)
  IN { r \in all : (inc = {} \/ r \in inc) /\ r \notin exc }

\* with suppression tracking deselected rules still run, but their findings are suppressed
Runs(all, o)    == IF o.track THEN all ELSE Selected(all, o)
Refused(all, o) == Runs(all, o) = {}

----------------------------------------------------------------------------
\* Selection as a process: options are applied one after another, as the scanner
\* does while reading the configuration and then the command line.
Known   == {"A", "B", "C"}          \* A, C: syntax rules, B: data-flow analyzer
Ids     == Known \cup {"X"}         \* X: no such rule
Lists   == SUBSET Ids
Options == [incFlag : Lists, incConf : Lists, excFlag : Lists, excConf : Lists, track : {FALSE}]
Given(o) == Cardinality({ k \in {"incFlag", "incConf", "excFlag", "excConf"} : o[k] # {} })

VARIABLES o, stage, inc, exc
vars == <<o, stage, inc, exc>>
Init == /\ o \in Options /\ Given(o) <= 2 /\ stage = "start" /\ inc = {} /\ exc = {}
ReadConf == /\ stage = "start" /\ stage' = "conf" /\ inc' = o.incConf /\ exc' = o.excConf /\ UNCHANGED o
ReadFlags == /\ stage = "conf" /\ stage' = "flags" /\ UNCHANGED o
             /\ inc' = IF o.incFlag = {} THEN inc ELSE o.incFlag
             /\ exc' = IF o.excFlag = {} THEN exc ELSE o.excFlag
Filter(r) == ~((inc # {} /\ r \notin inc) \/ r \in exc)
Next == ReadConf \/ ReadFlags
Spec == Init /\ [][Next]_vars

FilterExact == stage = "flags" => { r \in Known : Filter(r) } = Selected(Known, o)
ExclusionWins == stage = "flags" => \A r \in Known : r \in exc => ~Filter(r)
\* the verdict on one rule does not depend on which other rules are listed (given that some include list exists or none does)
Independent == stage = "flags" => \A r \in Known :
   Filter(r) = (r \notin exc /\ (inc = {} \/ r \in inc))

Emitted == { x \in Options : Given(x) <= 2 }
ASSUME Emit({ [incFlag |-> SetToSeq(x.incFlag), incConf |-> SetToSeq(x.incConf),
               excFlag |-> SetToSeq(x.excFlag), excConf |-> SetToSeq(x.excConf)] : x \in Emitted })
=============================================================================
