------------------------------- MODULE Follow -------------------------------
(* Following values through declarations and calls, which may depend on      *)
(* themselves (C23).  A graph has nodes 1..N; edge <<a, b>>: the declaration *)
(* of a mentions b (twice), or the function a passes its parameter to b (at  *)
(* two places).  Following means: push the start, pop a node, push what it   *)
(* leads to.  A follower which forgets where it has been does not come to an *)
(* end in a cycle, and takes exponential time in a lattice.                  *)
EXTENDS Util, Integers
CONSTANTS N, Remembers
Nodes == 1..N
Graphs == SUBSET (Nodes \X Nodes)
VARIABLES graph, start, pending, been, steps
vars == <<graph, start, pending, been, steps>>
Init == /\ graph \in Graphs /\ start \in Nodes
        /\ pending = <<start>> /\ been = {} /\ steps = 0
Targets(g, n) == { m \in Nodes : <<n, m>> \in g }
Follow == /\ pending # << >>
          /\ LET n == Head(pending)
                 new == IF Remembers /\ n \in been THEN << >> ELSE SetToSeq(Targets(graph, n))
             IN pending' = Tail(pending) \o new \o new
          /\ been' = been \cup {Head(pending)}
          /\ steps' = steps + 1 /\ UNCHANGED <<graph, start>>
Spec == Init /\ [][Follow]_vars /\ WF_vars(Follow)

RECURSIVE Closure(_, _)
Closure(g, s) == LET t == s \cup UNION { Targets(g, n) : n \in s } IN IF t = s THEN s ELSE Closure(g, t)
Reaches(g, a) == Closure(g, {a})                      \* with itself
Beyond(g, a) == Closure(g, Targets(g, a))             \* through at least one edge
\* a declaration is a known constant when what it is made of leads to no cycle
Known(g, a) == \A n \in Reaches(g, a) : n \notin Beyond(g, n)
Bounded == steps <= 1 + 2 * N * N
Complete == pending = << >> => been = Reaches(graph, start)
Ends == <>(pending = << >>)

ASSUME Emit(IF "EMIT" \in DOMAIN IOEnv THEN Graphs ELSE {})
=============================================================================
