------------------------------- MODULE Bounds -------------------------------
(* Slices of known size (C25).  A run makes a slice, cuts slices out of       *)
(* slices, learns about lengths by comparing them, and reads elements.  What  *)
(* is judged follows the sizes: len and cap, or the most they can be.         *)
(* In bounds of cuts, None stands for an absent one and Unknown for one which *)
(* is not constant.                                                           *)
EXTENDS Util, Integers
CONSTANTS MaxCap, MaxCuts,
          TwoSizes,     \* length and capacity are told apart
          Relative,     \* sizes of cuts are relative to where they begin
          Exactly,      \* an index equal to the length is out of range, a bound equal to the capacity is not
          ByValue,      \* a comparison protects only what it implies
          Both          \* the other branch of a comparison knows the opposite
None == -1
Unknown == -2
Known(b) == b >= 0
Max2(a, b) == IF a >= b THEN a ELSE b
Min2(a, b) == IF a <= b THEN a ELSE b

(* ---- what happens at run time; sizes are [len, cap] ---- *)
Low(c) == IF c.lo = None THEN 0 ELSE c.lo
High(z, c) == IF c.hi = None THEN z.len ELSE c.hi
Top(z, c) == IF c.max = None THEN z.cap ELSE c.max
CutPanics(z, c) == ~(Low(c) <= High(z, c) /\ High(z, c) <= Top(z, c) /\ Top(z, c) <= z.cap)
CutOf(z, c) == [len |-> High(z, c) - Low(c), cap |-> Top(z, c) - Low(c)]
IndexPanics(z, i) == i >= z.len

(* ---- what is known of it, from constants alone ---- *)
KLow(c) == IF Known(c.lo) THEN c.lo ELSE 0
KCut(z, c) == LET lo == IF Relative THEN KLow(c) ELSE 0
                  cap == IF Known(c.max) THEN c.max - lo ELSE z.cap - lo
                  len == CASE c.hi > 0 -> c.hi - lo [] c.hi = None -> z.len - lo [] OTHER -> cap   \* [:0] is there to be filled
              IN IF TwoSizes THEN [len |-> len, cap |-> cap] ELSE [len |-> len, cap |-> len]
KMake(l, c) == KCut([len |-> c, cap |-> c], [lo |-> None, hi |-> l, max |-> None])
KCutBad(z, c) == \/ Known(c.max) /\ c.max > z.cap
                 \/ Known(c.hi) /\ c.hi > z.cap
                 \/ Known(c.lo) /\ c.lo > (IF c.hi = None THEN z.len ELSE z.cap)
KIndexBad(z, i) == IF Exactly THEN i >= z.len ELSE i > z.len
RECURSIVE KSize(_, _)
KSize(z, cs) == IF cs = << >> THEN z ELSE KSize(KCut(z, cs[1]), SubSeq(cs, 2, Len(cs)))
RECURSIVE KBadOnWay(_, _)
KBadOnWay(z, cs) == cs # << >> /\ (KCutBad(z, cs[1]) \/ KBadOnWay(KCut(z, cs[1]), SubSeq(cs, 2, Len(cs))))

(* ---- comparisons: [op, k], of which holds tells the branch ---- *)
Holds(n, op, k) == CASE op = "<" -> n < k [] op = "<=" -> n <= k [] op = ">" -> n > k [] op = ">=" -> n >= k [] op = "==" -> n = k [] op = "!=" -> n # k
Opp(op) == CASE op = "<" -> ">=" [] op = "<=" -> ">" [] op = ">" -> "<=" [] op = ">=" -> "<" [] op = "==" -> "!=" [] op = "!=" -> "=="
Flip(op) == CASE op = "<" -> ">" [] op = "<=" -> ">=" [] op = ">" -> "<" [] op = ">=" -> "<=" [] OTHER -> op
Least(op, k, holds) == LET o == IF holds THEN op ELSE Opp(op) IN
  IF ~holds /\ ~Both THEN 0 ELSE
  CASE o = ">" -> k + 1 [] o = ">=" -> k [] o = "==" -> k [] o = "!=" /\ k = 0 -> 1 [] OTHER -> 0
(* What a length must be for an access [kind, i] or [kind, lo, hi, max] to be in range. *)
Need(a) == IF a.kind = "index" THEN a.i + 1 ELSE Max2(Max2(KLow(a.cut), IF Known(a.cut.hi) THEN a.cut.hi ELSE 0), IF Known(a.cut.max) THEN a.cut.max ELSE 0)
(* A guard is [op, k, holds, back]: of the slice from which the accessed one was cut that many steps ago. *)
Chain(cs, back) == SubSeq(cs, Len(cs) - back + 1, Len(cs))
Open(cs, back) == \A q \in DOMAIN Chain(cs, back) : LET c == Chain(cs, back)[q] IN c.hi = None /\ c.max = None /\ c.lo # Unknown
RECURSIVE Sum(_)
Sum(cs) == IF cs = << >> THEN 0 ELSE KLow(cs[1]) + Sum(Tail(cs))
Protects(g, a, cs) == Open(cs, g.back) /\ (IF ByValue THEN Least(g.op, g.k, g.holds) - Sum(Chain(cs, g.back)) >= Need(a) ELSE Least(g.op, g.k, g.holds) > 0)
(* together, guards may tell more than each alone *)
Together(gs, a, cs) == \A n \in 0..24 : (\A q \in DOMAIN gs : Open(cs, gs[q].back) => LET h == Holds(n + Sum(Chain(cs, gs[q].back)), gs[q].op, gs[q].k) IN h = gs[q].holds) => n >= Need(a)
KBad(z, a) == IF a.kind = "index" THEN KIndexBad(z, a.i) ELSE KCutBad(z, a.cut)
(* flows: the makings and cuts which may lead to the accessed slice; the last own cuts are those of the function of the access *)
Verdict(flows, a, gs) ==
  LET bad == \E f \in DOMAIN flows : KBad(KSize(flows[f].from, flows[f].cuts), a)
      guarded == \E q \in DOMAIN gs : Protects(gs[q], a, flows[1].cuts)
      lost == \E f \in DOMAIN flows : KBadOnWay(flows[f].from, flows[f].cuts)
  IN IF lost THEN "free" ELSE IF ~bad \/ guarded THEN "quiet" ELSE IF gs # << >> /\ Together(gs, a, flows[1].cuts) THEN "free" ELSE "report"

(* ---- a run of a function, what is known along it, and what is known of another call of it ---- *)
VARIABLES z, k, w, cuts, guard, access, verdict, panics, filled
bvars == <<z, k, w, cuts, guard, access, verdict, panics, filled>>
Bnd == {None} \cup (0..(MaxCap + 1))
Cut == { c \in [lo : Bnd, hi : Bnd, max : {None} \cup (0..MaxCap)] : (c.max # None => c.hi # None /\ c.hi <= c.max) /\ (c.hi # None /\ c.lo # None => c.lo <= c.hi) }
NoGuard == [op |-> ">=", k |-> 0, holds |-> TRUE]
NoAccess == [kind |-> "none"]
Sizes == { s \in [len : 0..MaxCap, cap : 0..MaxCap] : s.len <= s.cap }
BInit == /\ z \in Sizes /\ k = KMake(z.len, z.cap) /\ w \in { KMake(s.len, s.cap) : s \in Sizes } /\ cuts = 0 /\ guard = NoGuard
         /\ access = NoAccess /\ verdict = "none" /\ panics = FALSE /\ filled = (z.len = 0)
Cuts(c) == /\ cuts < MaxCuts /\ verdict = "none" /\ ~CutPanics(z, c) /\ ~KCutBad(w, c) /\ z' = CutOf(z, c) /\ k' = KCut(k, c) /\ w' = KCut(w, c) /\ cuts' = cuts + 1
           /\ guard' = NoGuard /\ filled' = ((filled /\ c.hi = None) \/ c.hi = 0) /\ UNCHANGED <<access, verdict, panics>>
(* comparisons come out as they do *)
Compare(op, n) == /\ verdict = "none" /\ guard = NoGuard /\ guard' = [op |-> op, k |-> n, holds |-> Holds(z.len, op, n)]
                  /\ UNCHANGED <<z, k, w, cuts, access, verdict, panics, filled>>
Access(a) == /\ verdict = "none" /\ access' = a
             /\ panics' = IF a.kind = "index" THEN IndexPanics(z, a.i) ELSE CutPanics(z, a.cut)
             /\ verdict' = IF (KBad(k, a) \/ KBad(w, a)) /\ ~Protects([op |-> guard.op, k |-> guard.k, holds |-> guard.holds, back |-> 0], a, << >>) THEN "report" ELSE "quiet"
             /\ UNCHANGED <<z, k, w, cuts, guard, filled>>
BNext == (\E c \in Cut : Cuts(c)) \/ (\E op \in {"<", "<=", ">", ">=", "==", "!="}, n \in 0..(MaxCap + 1) : Compare(op, n))
         \/ (\E i \in 0..(MaxCap + 1) : Access([kind |-> "index", i |-> i])) \/ (\E c \in Cut : Access([kind |-> "cut", cut |-> c]))
BSpec == BInit /\ [][BNext]_bvars
(* What is reported panics in this call or the other; what panics is reported, but slices without length are judged by their capacity. *)
Exact == verdict = "report" => panics \/ KBad(w, access)
Caught == verdict = "quiet" /\ panics => filled
(* sizes are followed exactly *)
Follows == /\ k.cap = z.cap /\ (~filled => k.len = z.len) /\ (filled => k.len <= z.cap /\ k.len >= z.len)
(* a comparison tells no more than is so, and what it makes safe is not reported *)
TrueGuard == Least(guard.op, guard.k, guard.holds) <= z.len
Spared == verdict = "report" => \E n \in 0..(2 * MaxCap + 4) : Holds(n, guard.op, guard.k) = guard.holds /\ n < Need(access)
(* Cases to play to the real system. *)
Emitted == Emit({[sizes |-> SetToSeq(Sizes), cuts |-> SetToSeq(Cut), comps |-> SetToSeq({"<", "<=", ">", ">=", "==", "!="} \X (0..(MaxCap + 1)))]})
ASSUME Emitted
=============================================================================
