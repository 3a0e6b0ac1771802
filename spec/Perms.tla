------------------------------- MODULE Perms --------------------------------
(* File permission checks (C17).  A mode is the set of its bits.             *)
EXTENDS Util

RECURSIVE Value(_, _)
\* value of a digit sequence in a base
Value(base, ds) == IF ds = << >> THEN 0 ELSE Value(base, SubSeq(ds, 1, Len(ds) - 1)) * base + ds[Len(ds)]
RECURSIVE Bits(_, _)
Bits(n, k) == IF n = 0 THEN {} ELSE (IF n % 2 = 1 THEN {k} ELSE {}) \cup Bits(n \div 2, k + 1)
ModeOf(base, ds) == Bits(Value(base, ds), 0)

\* bits which tell the kind of a file rather than who may do what with it
KindBits == {31, 30, 29, 28, 27, 26, 25, 24, 21, 19}
Excessive(mode, limit) == (mode \ KindBits) \ limit # {}

\* rule of a call and its default limit
Oct(d) == ModeOf(8, d)
Rules == [ G301 |-> [pkgs |-> {"os"}, fns |-> {"Mkdir", "MkdirAll"}, limit |-> Oct(<<7, 5, 0>>), implicit |-> FALSE],
           G302 |-> [pkgs |-> {"os"}, fns |-> {"OpenFile", "Chmod"}, limit |-> Oct(<<6, 0, 0>>), implicit |-> FALSE],
           G306 |-> [pkgs |-> {"os", "io/ioutil"}, fns |-> {"WriteFile"}, limit |-> Oct(<<6, 0, 0>>), implicit |-> FALSE],
           G307 |-> [pkgs |-> {"os"}, fns |-> {"Create"}, limit |-> Oct(<<6, 6, 6>>), implicit |-> TRUE] ]
ImplicitMode == Oct(<<6, 6, 6>>)
RuleOf(pkg, fn) == { r \in DOMAIN Rules : pkg \in Rules[r].pkgs /\ fn \in Rules[r].fns }

\* conf: rule -> configured limit, for the configured ones
LimitOf(r, conf) == IF r \in DOMAIN conf THEN conf[r] ELSE Rules[r].limit
Reported(pkg, fn, constant, mode, conf) ==
  { r \in RuleOf(pkg, fn) : IF Rules[r].implicit THEN Excessive(ImplicitMode, LimitOf(r, conf))
                            ELSE constant /\ Excessive(mode, LimitOf(r, conf)) }

----------------------------------------------------------------------------
\* The comparison as the scanner does it: (mode or limit) = limit, bit by bit.
CONSTANT Width
N == 2 ^ Width
VARIABLES m, lim, k, acc
vars == <<m, lim, k, acc>>
Bit(n, j) == (n \div (2 ^ j)) % 2
Init == m \in 0..(N - 1) /\ lim \in 0..(N - 1) /\ k = 0 /\ acc = 0
Or == /\ k < Width /\ acc' = acc + (IF Bit(m, k) = 1 \/ Bit(lim, k) = 1 THEN 2 ^ k ELSE 0)
      /\ k' = k + 1 /\ UNCHANGED <<m, lim>>
Spec == Init /\ [][Or]_vars
BitwiseExact == k = Width => ((acc # lim) <=> Excessive(Bits(m, 0), Bits(lim, 0)))
\* not the same as a numerical comparison
NumberedIsWeaker == k = Width /\ m > lim => acc # lim
\* granting more never silences a report, a wider limit never causes one
Monotone == k = Width => \A j \in 0..(Width - 1) :
   /\ Excessive(Bits(m, 0), Bits(lim, 0)) => Excessive(Bits(m, 0) \cup {j}, Bits(lim, 0))
   /\ Excessive(Bits(m, 0), Bits(lim, 0) \cup {j}) => Excessive(Bits(m, 0), Bits(lim, 0))
=============================================================================
