------------------------------- MODULE Names --------------------------------
(* What a name in a Go file refers to (C16, C20, C28).  An environment is    *)
(*   locals   sequence of sets of names, innermost scope first               *)
(*   pkg      names declared at package level (in any file)                  *)
(*   imports  sequence of [path, name, nat]: name "" is the plain import,    *)
(*            "_" a blank one, "." merges the exported names; nat is the     *)
(*            name in the package's own clause                               *)
EXTENDS Util

NameOf(i) == IF i.name = "" THEN i.nat ELSE i.name
Qualifies(i) == i.name \notin {"_", "."}

\* the package whose member a use q.fn refers to; "" when it refers to anything else
Refers(e, q, fn) ==
  LET n == IF q = "" THEN fn ELSE q
      inner == \E s \in DOMAIN e.locals : n \in e.locals[s]
      hits == { k \in DOMAIN e.imports : IF q = "" THEN e.imports[k].name = "." ELSE Qualifies(e.imports[k]) /\ NameOf(e.imports[k]) = q }
  IN IF inner \/ n \in e.pkg THEN ""
     ELSE IF hits = {} THEN "" ELSE e.imports[CHOOSE k \in hits : TRUE].path

\* a file the compiler accepts: one meaning per name
Legal(e) ==
  /\ \A a, b \in DOMAIN e.imports : a # b /\ Qualifies(e.imports[a]) /\ Qualifies(e.imports[b]) => NameOf(e.imports[a]) # NameOf(e.imports[b])
  /\ \A a \in DOMAIN e.imports : Qualifies(e.imports[a]) => NameOf(e.imports[a]) \notin e.pkg
  /\ Cardinality({ e.imports[a].path : a \in { b \in DOMAIN e.imports : e.imports[b].name = "." } }) <= 1

----------------------------------------------------------------------------
\* Look-up as a process: scopes are searched from the innermost one outwards.
Paths == {"x/r", "y/r", "z/o"}       \* real, look-alike with the same name, unrelated
Alias == {"", "_", ".", "o", "b"}
Nm    == {"r", "o", "b"}
Imp   == { [path |-> p, name |-> a, nat |-> IF p = "z/o" THEN "o" ELSE "r"] : p \in Paths, a \in Alias }
Shape(is) == [locals |-> << >>, pkg |-> {}, imports |-> is]
ImportLists == { is \in UNION { [1..n -> Imp] : n \in 1..2 } : Legal(Shape(is)) }

VARIABLES env, use, depth, res
vars == <<env, use, depth, res>>
Init == /\ \E is \in ImportLists, s1, s2 \in {{}, {"r"}, {"b", "F"}} :
             env = [locals |-> <<s1, s2>>, pkg |-> {}, imports |-> is]
        /\ use \in { [q |-> q, fn |-> "F"] : q \in Nm \cup {""} }
        /\ depth = 1 /\ res = "?"
Wanted == IF use.q = "" THEN use.fn ELSE use.q
Out == /\ res = "?" /\ depth <= Len(env.locals)
       /\ IF Wanted \in env.locals[depth] THEN res' = "" ELSE UNCHANGED res
       /\ depth' = depth + 1 /\ UNCHANGED <<env, use>>
File == /\ res = "?" /\ depth = Len(env.locals) + 1
        /\ \E p \in {""} \cup Paths :
             /\ res' = p
             /\ IF p # "" THEN \E k \in DOMAIN env.imports : env.imports[k].path = p /\
                                  (IF use.q = "" THEN env.imports[k].name = "." ELSE Qualifies(env.imports[k]) /\ NameOf(env.imports[k]) = use.q)
                ELSE ~\E k \in DOMAIN env.imports : (IF use.q = "" THEN env.imports[k].name = "." ELSE Qualifies(env.imports[k]) /\ NameOf(env.imports[k]) = use.q)
        /\ UNCHANGED <<env, use, depth>>
Spec == Init /\ [][Out \/ File]_vars /\ WF_vars(Out \/ File)
Found == <>(res # "?")
LookupExact == res # "?" => res = Refers(env, use.q, use.fn)
\* the name under which a package is imported is immaterial
Renamed(is, k, a) == [is EXCEPT ![k].name = a]
AliasFree == \A k \in DOMAIN env.imports : \A a \in {"n1"} :
   Qualifies(env.imports[k]) /\ Refers(env, use.q, use.fn) = env.imports[k].path /\ NameOf(env.imports[k]) = use.q
     => Refers([env EXCEPT !.imports = Renamed(env.imports, k, a)], a, use.fn) = env.imports[k].path
\* the order and repetition of imports are immaterial
OrderFree == \A k \in DOMAIN env.imports :
   Refers([env EXCEPT !.imports = Append(env.imports, env.imports[k])], use.q, use.fn) = Refers(env, use.q, use.fn)
   /\ Refers([env EXCEPT !.imports = Reverse(env.imports)], use.q, use.fn) = Refers(env, use.q, use.fn)

ASSUME Emit({ [imports |-> is] : is \in { js \in UNION { [1..n -> Imp] : n \in 1..3 } : Legal(Shape(js)) /\ (\E k \in DOMAIN js : js[k].path # "z/o")
                /\ \A a, b \in DOMAIN js : a < b => js[a] # js[b] } })
=============================================================================
