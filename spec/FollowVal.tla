------------------------------ MODULE FollowVal -----------------------------
(* x.g: a graph as a sequence of edges, x.kind:                              *)
(*   decl   x.got[a]: the use of variable a in a call was reported           *)
(*   nonce  function a hands a constant to the cipher if a \in x.sinks;      *)
(*          x.got[a]: the constant passed to function a was reported         *)
EXTENDS Conform, Integers
F == INSTANCE Follow WITH N <- 3, Remembers <- TRUE, graph <- {}, start <- 1, pending <- << >>, been <- {}, steps <- 0
JudgeImpl(x) ==
  LET g == { x.g[i] : i \in DOMAIN x.g }
      want(a) == CASE x.kind = "decl" -> ~F!Known(g, a)
                   [] x.kind = "nonce" -> F!Reaches(g, a) \cap { x.sinks[i] : i \in DOMAIN x.sinks } # {}
      wrong == { a \in 1..3 : x.got[a] # want(a) }
  IN { x.kind \o " " \o ToString(a) \o " is " \o (IF x.got[a] THEN "reported" ELSE "not reported") : a \in wrong }
=============================================================================
