------------------------------ MODULE Conform ------------------------------
(* Replay of recorded observations of the real scanner against a             *)
(* specification module.  One step consumes one observation; Judge gives the *)
(* set of complaints the specification has about it.  Every observation is   *)
(* judged (a complaint does not stop the replay) and the verdict is written  *)
(* when the last observation has been consumed.                              *)
EXTENDS Naturals, Sequences, TLC, Json, IOUtils

CONSTANT Judge(_)

VARIABLES l,    \* next observation
          bad   \* complaints so far

Obs == ndJsonDeserialize(IOEnv.OBS)

ConformInit == l = 1 /\ bad = << >>

ConformNext ==
  /\ l <= Len(Obs)
  /\ LET why == Judge(Obs[l]) IN
       bad' = IF why = {} THEN bad ELSE Append(bad, [i |-> l, why |-> why])
  /\ l' = l + 1

ConformSpec == ConformInit /\ [][ConformNext]_<<l, bad>>

\* evaluated in every state; writes the verdict in the last one
ConformDone ==
  (l = Len(Obs) + 1) => JsonSerialize(IOEnv.VERDICT, [seen |-> l - 1, bad |-> bad])
=============================================================================
