-------------------------------- MODULE Taint --------------------------------
(* Variable data which reaches dangerous calls (C20).  An expression is       *)
(* [op, v, kids]: a constant written in place (lit) or named (named), results *)
(* of calls and the like (call, index, field), variable v, concatenations,    *)
(* joined or cleaned paths, formatted and printed text, lists.                *)
(* A variable has a declaration [form, own, other]: form says how it is       *)
(* declared, own is the value it gets there and other the value of another    *)
(* variable declared along with it.  A variable counts as its declaration.    *)
EXTENDS Util, Integers
CONSTANTS MaxOps,       \* operators in an argument
          OwnValue,     \* a variable is judged by its own value only
          Named,        \* named constants are constants
          Once,         \* a variable is resolved once and not through itself
          Sides         \* both sides of a concatenation are looked at
Leaf(o) == [op |-> o, v |-> 0, kids |-> << >>]
Var(k) == [op |-> "var", v |-> k, kids |-> << >>]
Node(o, ks) == [op |-> o, v |-> 0, kids |-> ks]
Leaves == { Leaf(o) : o \in {"lit", "named", "call", "index", "field"} }
Atoms == Leaves \cup { Var(1), Var(2) }
Concats(A, B) == { Node("concat", <<a, b>>) : a \in A, b \in B }
Texts == IF MaxOps < 2 THEN Atoms \cup Concats(Atoms, Atoms)
         ELSE Atoms \cup Concats(Atoms, Atoms) \cup Concats(Concats(Atoms, Atoms), Atoms) \cup Concats(Atoms, Concats(Atoms, Atoms))
Short == Atoms \cup Concats(Atoms, Atoms)
Paths == Texts \cup { Node("join", <<a, b>>) : a \in Short, b \in Atoms } \cup { Node("join", <<a, b>>) : a \in Atoms, b \in Short } \cup { Node("clean", <<a>>) : a \in Atoms }
Lists == { Node("list", << >>) } \cup { Node("list", <<a>>) : a \in Atoms } \cup { Node("list", <<a, b>>) : a \in Atoms, b \in Short }
Prints == { Node(f, <<a, b>>) : f \in {"string", "number", "print"}, a \in Short, b \in Atoms } \cup { Node(f, <<a, b, c>>) : f \in {"string", "number", "print"}, a \in {Leaf("lit"), Leaf("named")}, b, c \in Atoms } \cup { Node(f, <<a>>) : f \in {"string", "print"}, a \in Leaves }
Forms == {"short", "var", "pair", "second", "package", "elsewhere", "param", "range", "zero", "several", "switched", "closure"}
HasValue(d) == d.form \in {"short", "var", "pair", "second", "package", "elsewhere", "closure"}
OfPackage(d) == d.form \in {"package", "elsewhere"}
Values(inner) == { Leaf("lit"), Leaf("named"), Leaf("call"), Leaf("index"), Node("clean", <<Leaf("call")>>), Node("clean", <<Leaf("lit")>>) }
          \cup (IF inner THEN {Var(2)} ELSE {})
          \cup Concats({Leaf("lit"), Leaf("named"), Leaf("call")} \cup (IF inner THEN {Var(2)} ELSE {}), {Leaf("lit"), Leaf("named"), Leaf("index")})
Decls(inner) == { [form |-> f, own |-> o, other |-> p, cleaned |-> c] :
                  f \in Forms, o \in Values(inner), p \in {Leaf("lit"), Leaf("call")}, c \in BOOLEAN }

(* What is known.  ds: the declarations *)
RECURSIVE Known(_, _, _)
Known(ds, e, through) ==
  CASE e.op \in {"lit", "named"} -> TRUE
    [] e.op = "concat" -> Known(ds, e.kids[1], through) /\ Known(ds, e.kids[2], through)
    [] e.op = "list" -> e.kids # << >> /\ \A q \in DOMAIN e.kids : Known(ds, e.kids[q], through)
    [] e.op = "var" -> e.v \notin through /\ HasValue(ds[e.v]) /\ Known(ds, ds[e.v].own, through \cup {e.v})
    [] OTHER -> FALSE
K(ds, e) == Known(ds, e, {})
RECURSIVE Operands(_)
Operands(e) == IF e.op = "concat" THEN Operands(e.kids[1]) \cup Operands(e.kids[2]) ELSE {e}
IsConst(e) == \A o \in Operands(e) : o.op \in {"lit", "named"}
Elsewhere(ds, e) == e.op = "var" /\ ds[e.v].form = "elsewhere"
(* Some variable operand has a value which isn't known. *)
UnknownVar(ds, e) == \E o \in Operands(e) : o.op = "var" /\ ~K(ds, o)
AllKnown(ds, e) == \A o \in Operands(e) : K(ds, o)
Mentions(ds, e) == { o.v : o \in { x \in Operands(e) : x.op = "var" } }

(* Verdicts about an argument: report, quiet or free (either is fine). *)
Worst(vs) == IF "report" \in vs THEN "report" ELSE IF "free" \in vs THEN "free" ELSE "quiet"
Launch(ds, e) ==
  IF e.op = "var" /\ ds[e.v].form = "param" THEN "quiet"      \* parameters are up to the caller
  ELSE IF K(ds, e) THEN "quiet" ELSE "report"
Request(ds, e) ==
  CASE e.op = "var" -> IF OfPackage(ds[e.v]) \/ ~K(ds, e) THEN "report" ELSE "quiet"
    [] e.op = "concat" -> IF UnknownVar(ds, e) THEN "report" ELSE IF AllKnown(ds, e) /\ \A k \in Mentions(ds, e) : ~OfPackage(ds[k]) THEN "quiet" ELSE "free"
    [] e.op \in {"lit", "named"} -> "quiet"
    [] OTHER -> "free"
IsClean(ds, k) == ds[k].cleaned \/ (HasValue(ds[k]) /\ ds[k].own.op = "clean")
AnyClean(ds, e) == \E k \in Mentions(ds, e) : IsClean(ds, k)
Part(ds, e) == IF UnknownVar(ds, e) THEN (IF AnyClean(ds, e) THEN "free" ELSE "report") ELSE IF AllKnown(ds, e) THEN "quiet" ELSE "free"
Open(ds, e) ==
  CASE e.op = "var" -> IF K(ds, e) \/ IsClean(ds, e.v) THEN "quiet" ELSE "report"
    [] e.op = "join" -> Worst({ Part(ds, e.kids[q]) : q \in DOMAIN e.kids })
    [] e.op \in {"concat", "lit", "named"} -> Part(ds, e)
    [] OTHER -> "free"
(* The text of a query, or that of the variable holding it.  Literals are SQL, named constants may be. *)
HasText(ds, e) == e.op = "var" /\ HasValue(ds[e.v])
Text(ds, e) == IF HasText(ds, e) THEN ds[e.v].own ELSE e
NotKnown(ds, o) == ~K(ds, o)
Query(ds, e, sql) ==
  LET t == Text(ds, e) IN
  IF IsConst(t) THEN "quiet"
  ELSE IF t.op = "concat" /\ (\E o \in Operands(t) : NotKnown(ds, o)) /\ (\E o \in Operands(t) : o.op \in sql) THEN "report"
  ELSE "free"
Format(ds, e, sql) ==
  LET t == Text(ds, e) IN
  IF t.op \notin {"string", "number", "print"} THEN "quiet"
  ELSE IF \A q \in DOMAIN t.kids : IsConst(t.kids[q]) THEN "quiet"
  ELSE IF t.op = "number" THEN (IF IsConst(t.kids[1]) THEN "quiet" ELSE "free")
  ELSE IF (\E q \in DOMAIN t.kids \ {1} : \E o \in Operands(t.kids[q]) : NotKnown(ds, o)) /\ (\E o \in Operands(t.kids[1]) : o.op \in sql) THEN "report"
  ELSE "free"
(* The variables an expression depends on, through the values of variables too. *)
RECURSIVE Reach(_, _, _)
Reach(ds, e, through) ==
  (IF e.op = "var" THEN (IF e.v \in through THEN {} ELSE {e.v} \cup (IF HasValue(ds[e.v]) THEN Reach(ds, ds[e.v].own, through \cup {e.v}) ELSE {})) ELSE {})
  \cup UNION { Reach(ds, e.kids[q], through) : q \in DOMAIN e.kids }
Verdict(rule, ds, e, sql) ==
  IF \E k \in Reach(ds, e, {}) : ds[k].form = "elsewhere"
  THEN (IF rule = "G107" /\ Elsewhere(ds, e) THEN "report" ELSE "free")   \* declarations of other files are not followed
  ELSE CASE rule = "G204" -> Launch(ds, e)
         [] rule = "G107" -> Request(ds, e)
         [] rule = "G304" -> Open(ds, e)
         [] rule = "G202" -> Query(ds, e, sql)
         [] rule = "G201" -> Format(ds, e, sql)

(* A resolver walks through what is left to look at. *)
VARIABLES use, decls, todo, seen, verdict
tvars == <<use, decls, todo, seen, verdict>>
TInit == /\ use \in Short
         /\ decls \in [1..2 -> { [form |-> f, own |-> o, other |-> p, cleaned |-> FALSE] : f \in {"short", "pair", "param"}, o \in {Leaf("lit"), Leaf("call"), Var(1), Var(2), Node("concat", <<Var(2), Leaf("named")>>), Node("concat", <<Leaf("named"), Leaf("call")>>)}, p \in {Leaf("lit"), Leaf("call")} }]
         /\ todo = <<use>> /\ seen = {} /\ verdict = "open"
Same == UNCHANGED <<use, decls>>
Done == verdict = "open" /\ todo = << >> /\ verdict' = "known" /\ UNCHANGED <<todo, seen>> /\ Same
Give == verdict' = "unknown" /\ UNCHANGED <<todo, seen>>
Step == /\ verdict = "open" /\ todo # << >> /\ Same
        /\ LET e == Head(todo) rest == Tail(todo) IN
           CASE e.op = "lit" -> todo' = rest /\ UNCHANGED <<seen, verdict>>
             [] e.op = "named" -> IF Named THEN todo' = rest /\ UNCHANGED <<seen, verdict>> ELSE Give
             [] e.op = "concat" -> todo' = (IF Sides THEN <<e.kids[1], e.kids[2]>> ELSE <<e.kids[2]>>) \o rest /\ UNCHANGED <<seen, verdict>>
             [] e.op = "var" ->
                LET d == decls[e.v] IN
                IF ~HasValue(d) THEN Give
                ELSE IF Once /\ \E m \in seen : m = e.v THEN
                  (* looked at before: its value has been pushed already, unless it goes through itself *)
                  IF K(decls, e) THEN todo' = rest /\ UNCHANGED <<seen, verdict>> ELSE Give
                ELSE /\ todo' = (IF OwnValue \/ d.form # "pair" THEN <<d.own>> ELSE <<d.own, d.other>>) \o rest
                     /\ seen' = seen \cup {e.v} /\ UNCHANGED verdict
             [] OTHER -> Give
TNext == Done \/ Step
TSpec == TInit /\ [][TNext]_tvars /\ WF_tvars(TNext)
Right == verdict # "open" => (verdict = "known") = K(decls, use)
Decides == <>(verdict # "open")
(* Splitting and naming constants never changes a verdict. *)
RECURSIVE Renamed(_)
Renamed(e) == IF e.op = "lit" THEN Leaf("named") ELSE IF e.op = "named" THEN Node("concat", <<Leaf("lit"), Leaf("named")>>)
              ELSE [e EXCEPT !.kids = [q \in DOMAIN @ |-> Renamed(@[q])]]
Invariance == seen = {} /\ todo = <<use>> =>
              LET r == Renamed(use)
                  ds == [q \in DOMAIN decls |-> [decls[q] EXCEPT !.own = Renamed(@)]]
              IN /\ K(decls, use) = K(ds, r) /\ Launch(decls, use) = Launch(ds, r) /\ Open(decls, use) = Open(ds, r) /\ Request(decls, use) = Request(ds, r)
                 /\ Query(decls, use, {"lit", "named"}) = Query(ds, r, {"lit", "named"})
ASSUME Emit(IF "EMIT" \in DOMAIN IOEnv THEN {[texts |-> Texts, paths |-> Paths, lists |-> Lists, prints |-> Prints, outer |-> Decls(TRUE), inner |-> Decls(FALSE)]} ELSE {})
=============================================================================
