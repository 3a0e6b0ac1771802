----------------------------- MODULE Isolation ------------------------------
(* One file, package or run never changes the verdict on another (C22).      *)
(* A scanner is used for a history of operations                             *)
(*   [op |-> "scan", ps]  check packages one after the other                 *)
(*   [op |-> "reset", s]  reset and load selection s of rules and settings   *)
(*   [op |-> "edit", p]   package p gets its next version                    *)
(* What a scan adds to the report is a function of the packages' versions    *)
(* and of the selection alone.                                               *)
EXTENDS Util, Integers
CONSTANTS Pkgs, NVers, Sels, MaxOps,
          ClearTable,   \* the annotations of a file are forgotten when it is checked again
          ClearErrors,  \* a reset forgets errors
          ByName        \* values are remembered by their names and across files
Orders == { <<a>> : a \in Pkgs } \cup { t \in Pkgs \X Pkgs : t[1] # t[2] }
Ops == [op : {"scan"}, ps : Orders] \cup [op : {"reset"}, s : Sels] \cup [op : {"edit"}, p : Pkgs]

\* version of p and selection before operation i
VersionAt(h, i, p) == Cardinality({ j \in 1..(i-1) : h[j].op = "edit" /\ h[j].p = p }) % NVers
Resets(h, i) == { j \in 1..(i-1) : h[j].op = "reset" }
LastReset(h, i) == IF Resets(h, i) = {} THEN 0 ELSE CHOOSE j \in Resets(h, i) : \A k \in Resets(h, i) : k <= j
SelAt(h, i, s0) == IF LastReset(h, i) = 0 THEN s0 ELSE h[LastReset(h, i)].s
\* packages with their versions that scans since the last reset up to operation i went through
ScannedBy(h, i) == UNION { { <<p, VersionAt(h, j, p)>> : p \in ToSetOf(h[j].ps) } : j \in { j \in (LastReset(h, i + 1) + 1)..i : h[j].op = "scan" } }

----------------------------------------------------------------------------
\* A scanner at work.  Versions hold: findings at lines, annotations at lines,
\* the name that is bound dangerously, names that are used, type errors.
Version(v) == CASE v = 0 -> [find |-> {1}, note |-> {1}, binds |-> {"r"}, uses |-> {}, broken |-> FALSE]
                [] v = 1 -> [find |-> {1, 2}, note |-> {2}, binds |-> {}, uses |-> {"r"}, broken |-> FALSE]
                [] OTHER -> [find |-> {2}, note |-> {}, binds |-> {"r"}, uses |-> {"r"}, broken |-> TRUE]
Bound == 9   \* the line of the use of a bound name
Alone(v) == (Version(v).find \ Version(v).note) \cup (IF Version(v).binds \cap Version(v).uses # {} THEN {Bound} ELSE {})
VARIABLES hist, ver, table, memory, errs, delta
vars == <<hist, ver, table, memory, errs, delta>>
Init == hist = << >> /\ ver = [p \in Pkgs |-> 0] /\ table = {} /\ memory = {} /\ errs = {} /\ delta = << >>
\* the state a list of packages leaves behind, and what it reports
RECURSIVE Check(_, _, _, _)
Check(ps, t, m, found) ==
  IF ps = << >> THEN [table |-> t, memory |-> m, found |-> found]
  ELSE LET p == Head(ps)
           v == Version(ver[p])
           t1 == (IF ClearTable THEN { e \in t : e[1] # p } ELSE t) \cup { <<p, n>> : n \in v.note }
           m1 == (IF ByName THEN m ELSE {}) \cup v.binds
           f == { x \in v.find : <<p, x>> \notin t1 } \cup (IF v.uses \cap m1 # {} THEN {Bound} ELSE {})
       IN Check(Tail(ps), t1, m1, found \cup { <<p, x>> : x \in f })
Scan(ps) == LET r == Check(ps, table, memory, {}) IN
            /\ table' = r.table /\ memory' = r.memory /\ delta' = Append(delta, r.found)
            /\ errs' = errs \cup { p \in ToSetOf(ps) : Version(ver[p]).broken }
            /\ UNCHANGED ver
Reset == /\ table' = {} /\ memory' = {} /\ delta' = Append(delta, {}) /\ UNCHANGED ver
         /\ errs' = IF ClearErrors THEN {} ELSE errs
Edit(p) == ver' = [ver EXCEPT ![p] = (@ + 1) % NVers] /\ delta' = Append(delta, {}) /\ UNCHANGED <<table, memory, errs>>
Do(o) == /\ hist' = Append(hist, o)
         /\ CASE o.op = "scan" -> Scan(o.ps) [] o.op = "reset" -> Reset [] OTHER -> Edit(o.p)
Next == Len(hist) < MaxOps /\ \E o \in Ops : Do(o)
Spec == Init /\ [][Next]_vars

Isolated == \A i \in DOMAIN hist : hist[i].op = "scan" =>
              delta[i] = UNION { { <<p, x>> : x \in Alone(VersionAt(hist, i, p)) } : p \in ToSetOf(hist[i].ps) }
ErrorsOfThisRun == errs = { p \in Pkgs : \E v \in 0..(NVers - 1) : Version(v).broken /\ <<p, v>> \in ScannedBy(hist, Len(hist)) }
\* histories to replay: they end with a scan
Histories == { h \in [1..MaxOps -> Ops] : h[MaxOps].op = "scan" }
ASSUME Emit(IF "EMIT" \in DOMAIN IOEnv THEN Histories ELSE {})
=============================================================================
