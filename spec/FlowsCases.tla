----------------------------- MODULE FlowsCases -----------------------------
(* The programs and calls which are replayed.                                 *)
EXTENDS Flows
\* of programs which only differ in the names of their variables, one
First(p) == \A i \in DOMAIN p : p[i].v = "b" => \E j \in 1..(i - 1) : p[j].v = "a"
Cases == { p \in Programs(2) \cup Programs(3) \cup Programs(4) : Last(p).op = "use" /\ First(p) }
Case(k, p, r, c, a, e) == [kind |-> k, prog |-> p, rule |-> r, callee |-> c, arg |-> a, path |-> e]
NoPath == [k |-> ""]
Both(t) == t.danger \cup t.safe
ASSUME Emit(
  { Case("flow", p, "", "", "", NoPath) : p \in Cases }
  \cup { Case("path", << >>, "G303", c, "", e) : c \in Both(Callees.G303), e \in Paths }
  \cup UNION { { Case("call", << >>, r, c, a, NoPath) : c \in Both(Callees[r]), a \in Both(Direct[r]) } : r \in DOMAIN Direct }
  \cup UNION { { Case("source", << >>, r, f, IF f \in Sources[r].danger THEN "danger" ELSE "safe", NoPath) : f \in Both(Sources[r]) } : r \in FlowRules }
  \cup UNION { { Case("sink", << >>, r, f, IF f \in Sinks[r].danger THEN "danger" ELSE "safe", NoPath) : f \in Both(Sinks[r]) } : r \in FlowRules })
=============================================================================
