------------------------------ MODULE Versions ------------------------------
(* The version of Go which decides whether the variables of a range loop are  *)
(* shared between its rounds (G601): the environment names one, or else the   *)
(* module in which the scanner is started, or else the toolchain itself.      *)
(* A version is a pair <<major, minor>> (patches and pre-releases change       *)
(* nothing), << >> is none.                                                    *)
EXTENDS Util

Named == { <<1, 9>>, <<1, 18>>, <<1, 20>>, <<1, 21>>, <<1, 22>>, <<1, 23>> }
Foreign == { <<1, 30>>, <<1, 100>>, <<1, 2>> }   \* only the environment can name them
Older(v, w) == v[1] < w[1] \/ (v[1] = w[1] /\ v[2] < w[2])
Effective(env, mod, tool) == IF env # << >> THEN env ELSE IF mod # << >> THEN mod ELSE tool
Shared(env, mod, tool) == Older(Effective(env, mod, tool), <<1, 22>>)

Cases == { [env |-> e, mod |-> m] : e \in {<< >>} \cup Named \cup Foreign, m \in {<< >>} \cup Named }
\* the environment wins, and nothing else counts then
ASSUME \A c \in Cases, t \in Named : c.env # << >> => (Shared(c.env, c.mod, t) <=> Shared(c.env, << >>, <<1, 30>>))
ASSUME \A v, w \in Named \cup Foreign : Older(v, w) => (Shared(w, << >>, w) => Shared(v, << >>, v))
ASSUME Emit(Cases)
=============================================================================
