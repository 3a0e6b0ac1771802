-------------------------------- MODULE Util --------------------------------
(* Small helpers shared by the specification modules.                        *)
EXTENDS Naturals, Sequences, FiniteSets, SequencesExt, Json, IOUtils, TLC

ToSetOf(s) == { s[i] : i \in DOMAIN s }

\* write the enumerated cases when IOEnv.EMIT asks for them
Emit(S) == "EMIT" \notin DOMAIN IOEnv \/ ndJsonSerialize(IOEnv.EMIT, SetToSeq(S))

\* number of occurrences of x in sequence s
Occ(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })

SameBag(s, t) == /\ Len(s) = Len(t)
                 /\ \A i \in DOMAIN s : Occ(s, s[i]) = Occ(t, s[i])

EnvInt(name, default) == IF name \in DOMAIN IOEnv THEN atoi(IOEnv[name]) ELSE default
=============================================================================
