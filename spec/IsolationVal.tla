---------------------------- MODULE IsolationVal ----------------------------
(* x.ops: a history as in Isolation.tla; x.nvers; x.s0: first selection;     *)
(* x.base[p][v + 1][s]: what package p in version v says under selection s   *)
(* when each of its declarations is checked alone by a new scanner: finds, a *)
(* sequence of findings, broken, nums: findings, annotations, files, lines.  *)
(* x.got[i]: new findings, lost ones, packages with errors, added numbers    *)
(* (the numbers themselves after a reset) after operation i.                 *)
EXTENDS Conform, Integers, FiniteSets
M(n) == INSTANCE Isolation WITH Pkgs <- {}, NVers <- n, Sels <- {}, MaxOps <- 0, ClearTable <- TRUE, ClearErrors <- TRUE, ByName <- FALSE,
                                hist <- << >>, ver <- << >>, table <- {}, memory <- {}, errs <- {}, delta <- << >>
Range0(s) == { s[i] : i \in DOMAIN s }
RECURSIVE Concat(_)
Concat(ss) == IF ss = << >> THEN << >> ELSE Head(ss) \o Concat(Tail(ss))
Count(s, e) == Cardinality({ i \in DOMAIN s : s[i] = e })
RECURSIVE Sum(_, _)
Sum(ss, k) == IF ss = << >> THEN 0 ELSE Head(ss)[k] + Sum(Tail(ss), k)
Base(x, i, p) == x.base[p][M(x.nvers)!VersionAt(x.ops, i, p) + 1][M(x.nvers)!SelAt(x.ops, i, x.s0)]
Step(x, i) ==
  LET o == x.ops[i]
      g == x.got[i]
      bs == IF o.op = "scan" THEN [j \in DOMAIN o.ps |-> Base(x, i, o.ps[j])] ELSE << >>
      want == Concat([j \in DOMAIN bs |-> bs[j].finds])
      errs == { p \in DOMAIN x.base : \E v \in 0..(x.nvers - 1) : x.base[p][v + 1][1].broken /\ <<p, v>> \in M(x.nvers)!ScannedBy(x.ops, i) }
      say(t) == "operation " \o ToString(i) \o ": " \o t
  IN { say("more often than alone: " \o e) : e \in { e \in Range0(g.new) : Count(g.new, e) > Count(want, e) } }
     \cup { say("less often than alone: " \o e) : e \in { e \in Range0(want) : Count(g.new, e) < Count(want, e) } }
     \cup (IF o.op # "reset" THEN { say("lost: " \o e) : e \in Range0(g.lost) } ELSE {})
     \cup (IF Range0(g.errs) # errs THEN {say("packages with errors are " \o ToString(Range0(g.errs)) \o ", not " \o ToString(errs))} ELSE {})
     \cup { say("number " \o ToString(k) \o " grew by " \o ToString(g.nums[k])) : k \in { k \in 1..4 : g.nums[k] # Sum([j \in DOMAIN bs |-> bs[j].nums], k) } }
JudgeImpl(x) == UNION { Step(x, i) : i \in DOMAIN x.ops }
=============================================================================
