----------------------------- MODULE RangesVal ------------------------------
(* x.src, x.dst: the types; x.base: [k |-> "full"] | [k |-> "const", c] |    *)
(* [k |-> "len"] | [k |-> "parse", fn, bits]: where the value comes from;    *)
(* x.neg: the opposite of the value is converted; x.steps: what is on the    *)
(* way to the conversion; x.got: number of reports at the conversion.        *)
EXTENDS Conform, Integers
R == INSTANCE Ranges WITH v <- 0, known <- 0, S <- {}, n <- 0, plain <- TRUE, Lo <- 0, Hi <- 0, Consts <- {}, Ops <- {}, Depth <- 0
BaseRange(x) == CASE x.base.k = "full" -> R!RangeOf(x.src)
                  [] x.base.k = "const" -> [lo |-> x.base.c, hi |-> x.base.c]
                  [] x.base.k = "len" -> R!Meet(R!RangeOf(x.src), [lo |-> 0, hi |-> R!RangeOf(x.src).hi])
                  [] x.base.k = "parse" -> R!ParseRange(x.base.fn, x.base.bits)
\* what is converted when the variable is v: the least value of a type is its own opposite, but for an unsigned
\* destination of the same size the bits are those of its magnitude
Converted(x, v) == IF ~x.neg THEN v
                   ELSE IF v = R!RangeOf(x.src).lo /\ ~(R!SizeOf[x.src] = R!SizeOf[x.dst] /\ ~R!Signed(x.dst)) THEN v ELSE -v
JudgeImpl(x) ==
  LET all == R!RangeOf(x.src)
      dst == R!RangeOf(x.dst)
      crit == R!Critical(x.steps, BaseRange(x), all)
      reach == R!Reaching(x.steps, R!In(BaseRange(x), crit), R!In(all, crit))
      escapes == { v \in reach : Converted(x, v) < dst.lo \/ Converted(x, v) > dst.hi }
      i == R!KnownAfter(x.steps, BaseRange(x), all)
      fits == IF ~x.neg THEN R!Within(i, dst)
              ELSE R!Empty(i) \/ (\A v \in {i.lo, i.hi} : Converted(x, v) >= dst.lo /\ Converted(x, v) <= dst.hi)
  IN (IF x.got > 1 THEN {"reported twice"} ELSE {})
     \cup (IF R!Widening(x.src, x.dst) /\ ~x.neg /\ x.got > 0 THEN {"widening conversion reported"} ELSE {})
     \cup (IF ~R!Widening(x.src, x.dst) /\ escapes # {} /\ x.got = 0 THEN {"not reported"} ELSE {})
     \cup (IF fits /\ x.got > 0 THEN {"wrongly reported"} ELSE {})
     \cup (IF fits /\ ~x.neg /\ escapes # {} THEN {"specification unsound"} ELSE {})
=============================================================================
