-------------------------------- MODULE Flows --------------------------------
(* Dangerous uses of a value which was made somewhere else.                   *)
(*                                                                            *)
(* A program is a sequence of steps over nested blocks: a variable is         *)
(* declared with a dangerous or a harmless value, an existing variable gets a *)
(* dangerous value, a block is opened (perhaps declaring a variable in its    *)
(* header: `if v, err := f(); ...', `for _, v := range xs') or closed, and a  *)
(* variable is used.  What has to be reported is said declaratively: the use  *)
(* of a variable is dangerous when the declaration which is visible there was *)
(* given a dangerous value before.  What the rules do is a transition system: *)
(* a pass over the steps with a stack of scopes and a set of tracked objects. *)
(* TLC compares the two for all programs up to MaxSteps, and finds the        *)
(* differences when the pass has one of the faults below.                     *)
EXTENDS Util
CONSTANTS Names, MaxSteps, MaxDepth,
          Fault    \* "" or what the pass does wrong

(* ------------------------------------------------------------- programs *)
Steps == [op : {"decl"}, v : Names, bad : BOOLEAN]
  \cup [op : {"set"}, v : Names, bad : {TRUE}]
  \cup [op : {"open"}, v : Names, bad : BOOLEAN]      \* declares v in its header
  \cup [op : {"open"}, v : {""}, bad : {FALSE}]
  \cup [op : {"close"}, v : {""}, bad : {FALSE}]
  \cup [op : {"use"}, v : Names, bad : {FALSE}]

\* the block depth in which step i of p works (the one which an opening step opens)
RECURSIVE Depth(_, _)
Depth(p, i) == IF i = 0 THEN 0
               ELSE IF p[i].op = "open" THEN Depth(p, i - 1) + 1
               ELSE IF p[i].op = "close" THEN Depth(p, i - 1) - 1
               ELSE Depth(p, i - 1)

Declares(p, j) == p[j].op \in {"decl", "open"} /\ p[j].v # ""

\* step j declares a variable which is still in scope at step i
InScope(p, j, i) == /\ j < i /\ Declares(p, j)
                    /\ \A k \in j..i : Depth(p, k) >= Depth(p, j)

\* the step which declares what the name v means at step i; 0: none
DeclOf(p, v, i) ==
  LET D == { j \in 1..(i - 1) : InScope(p, j, i) /\ p[j].v = v }
  IN IF D = {} THEN 0 ELSE CHOOSE j \in D : \A k \in D : k <= j

\* the variable used at step i was given a dangerous value before
Tainted(p, i) ==
  LET d == DeclOf(p, p[i].v, i) IN
    /\ d # 0
    /\ \/ p[d].bad
       \/ \E j \in d..(i - 1) : p[j].op = "set" /\ p[j].bad /\ p[j].v = p[i].v /\ DeclOf(p, p[j].v, j) = d

Legal(p, s) ==
  LET q == Append(p, s) n == Len(p) + 1 IN
    CASE s.op = "close" -> Depth(p, Len(p)) > 0
      [] s.op = "open" -> Depth(q, n) <= MaxDepth
      [] s.op = "decl" -> LET d == DeclOf(q, s.v, n) IN   \* once in a block
                            IF d = 0 THEN TRUE ELSE (Depth(q, d) < Depth(q, n) \/ p[d].op = "open")
      [] OTHER -> DeclOf(q, s.v, n) # 0

\* a declaration in the header of a block has a scope around that of its body: the body may declare the name
\* again.  (Depth gives both the same depth; the later one wins, as it has to.)  Twice in a body is not legal.
Twice(p) == \E i, j \in DOMAIN p : i < j /\ p[i].op = "decl" /\ p[j].op = "decl" /\ p[i].v = p[j].v
                                  /\ Depth(p, i) = Depth(p, j) /\ \A k \in i..j : Depth(p, k) >= Depth(p, i)

RECURSIVE Programs(_)
Programs(n) == IF n = 0 THEN { << >> }
               ELSE UNION { { Append(p, s) : s \in { t \in Steps : Legal(p, t) /\ ~Twice(Append(p, t)) } } : p \in Programs(n - 1) }

(* ------------------------------------------------------------- the pass *)
VARIABLES prog,      \* the steps so far
          scopes,    \* one function from names to objects for each open scope
          next,      \* the next object
          tracked,   \* objects (or names) holding a dangerous value
          reported   \* steps which have been reported
vars == <<prog, scopes, next, tracked, reported>>

Look(v) == LET S == { k \in DOMAIN scopes : scopes[k][v] # 0 }
           IN IF S = {} THEN 0
              ELSE IF Fault = "outermost" THEN scopes[CHOOSE k \in S : \A m \in S : k <= m][v]
              ELSE scopes[CHOOSE k \in S : \A m \in S : m <= k][v]
Empty == [v \in Names |-> 0]
\* what is remembered for a variable: the object, never its name (a wrong pass remembers by name)
Mark(v, o) == IF Fault = "byname" THEN CHOOSE k \in 1..Cardinality(Names) : SetToSeq(Names)[k] = v ELSE o
Remember(v, o, b) == IF ~b THEN (IF Fault = "forget" THEN {} ELSE tracked)
                     ELSE IF Fault = "last" THEN {Mark(v, o)}
                     ELSE tracked \cup {Mark(v, o)}
Put(ss, v, o) == [ss EXCEPT ![Len(ss)][v] = o]

Init == prog = << >> /\ scopes = << Empty >> /\ next = 1 /\ tracked = {} /\ reported = {}
Do(s) ==
  /\ prog' = Append(prog, s)
  /\ CASE s.op = "decl" -> /\ scopes' = Put(scopes, s.v, next) /\ next' = next + 1
                           /\ tracked' = Remember(s.v, next, s.bad) /\ UNCHANGED reported
       [] s.op = "set" -> /\ tracked' = Remember(s.v, Look(s.v), s.bad) /\ UNCHANGED <<scopes, next, reported>>
       [] s.op = "open" -> /\ scopes' = (IF s.v = "" THEN Append(scopes, Empty) ELSE Append(scopes, [Empty EXCEPT ![s.v] = next]))
                           /\ next' = next + 1
                           /\ tracked' = (IF s.v = "" THEN tracked ELSE Remember(s.v, next, s.bad))
                           /\ UNCHANGED reported
       [] s.op = "close" -> /\ scopes' = (IF Fault = "stays" /\ Len(scopes) > 1
                                          THEN SubSeq(scopes, 1, Len(scopes) - 2)
                                               \o << [v \in Names |-> IF scopes[Len(scopes)][v] # 0 THEN scopes[Len(scopes)][v] ELSE scopes[Len(scopes) - 1][v]] >>
                                          ELSE SubSeq(scopes, 1, Len(scopes) - 1))
                            /\ tracked' = (IF Fault = "clears" THEN {} ELSE tracked)
                            /\ UNCHANGED <<next, reported>>
       [] OTHER -> /\ reported' = (IF Mark(s.v, Look(s.v)) \in tracked THEN reported \cup {Len(prog) + 1} ELSE reported)
                   /\ UNCHANGED <<scopes, next, tracked>>
Next == /\ Len(prog) < MaxSteps
        /\ \E s \in Steps : Legal(prog, s) /\ ~Twice(Append(prog, s)) /\ Do(s)
FSpec == Init /\ [][Next]_vars

Exact == reported = { i \in DOMAIN prog : prog[i].op = "use" /\ Tainted(prog, i) }

\* unrelated steps put between, before or after change nothing: the verdict on a use depends on the steps which
\* concern the variable's own declaration only
Related(p, i) == LET d == DeclOf(p, p[i].v, i) IN
                   { j \in DOMAIN p : j = d \/ (p[j].op = "set" /\ p[j].v = p[i].v /\ DeclOf(p, p[j].v, j) = d) }
Local == \A i \in DOMAIN prog : prog[i].op = "use" =>
           ((i \in reported) <=> \E j \in Related(prog, i) : j < i /\ prog[j].bad)

(* ------------------------------------------- what the rules call dangerous *)
\* the ways a variable gets its value, and whether that is a dangerous one for the rule
Sources == [
  G102 |-> [danger |-> {"any4", "any6", "noHost"},
            safe |-> {"local", "named", "one6", "other4", "dashes", "digits"}],
  G109 |-> [danger |-> {"atoi"}, safe |-> {"number", "length", "other"}],
  G110 |-> [danger |-> {"gzip", "zlib", "zlibDict", "bzip2", "flate", "flateDict", "lzw", "tar", "member"},
            safe |-> {"file", "limited", "bytes"}],
  G305 |-> [danger |-> {"zipName", "tarName", "tarLink"}, safe |-> {"text", "base", "ownName"}],
  G601 |-> [danger |-> {"range"}, safe |-> {"copy", "plain", "clause"}]]
\* the ways a variable is used, and whether the rule minds
Sinks == [
  G102 |-> [danger |-> {"net", "tls", "parsed"}, safe |-> {"dial", "printed", "network"}],
  G109 |-> [danger |-> {"int16", "int32", "rune", "named16", "named32"}, safe |-> {"int", "int64", "uint64", "float64", "printed"}],
  G110 |-> [danger |-> {"copy", "copyBuffer"}, safe |-> {"copyN", "limited", "destination"}],
  G305 |-> [danger |-> {"filepath", "path", "third"}, safe |-> {"base", "clean", "printed"}],
  G601 |-> [danger |-> {"passed", "stored", "inLiteral", "returnedCall", "parens", "field", "deepField"}, safe |-> {"returned", "value", "compared", "pointed"}]]
FlowRules == DOMAIN Sources

\* what has to be reported of a program whose steps carry sources and sinks
Abstract(rule, p) == [ i \in DOMAIN p |-> [op |-> p[i].op, v |-> p[i].v, bad |-> p[i].form \in Sources[rule].danger] ]
Known(rule, p) == \A i \in DOMAIN p :
                    CASE p[i].op = "use" -> p[i].form \in Sinks[rule].danger \cup Sinks[rule].safe
                      [] p[i].v = "" -> TRUE
                      [] OTHER -> p[i].form \in Sources[rule].danger \cup Sources[rule].safe
MustReport(rule, p, on) ==
  IF ~on THEN {}
  ELSE LET a == Abstract(rule, p) IN { i \in DOMAIN p : p[i].op = "use" /\ p[i].form \in Sinks[rule].danger /\ Tainted(a, i) }

(* -------------------------------------------------- paths written in a call *)
\* G303: a path expression is text, the directory for temporary files, an addition, or a join; a text is the
\* sequence of its segments (<<"", "tmp", "x">> is /tmp/x, <<"", "tmp", "">> is /tmp/)
Glue(a, b) == SubSeq(a, 1, Len(a) - 1) \o << Last(a) \o Head(b) >> \o Tail(b)
RECURSIVE Written(_)
Written(e) == CASE e.k = "text" -> e.segs
                [] e.k = "temp" -> <<"", "tmp">>
                [] e.k = "plus" -> Glue(Written(e.l), Written(e.r))
                [] e.k = "join" -> Written(e.l) \o Written(e.r)
                [] OTHER -> <<"?">>                                \* not known
Shared(s) == /\ Len(s) >= 2 /\ s[1] = ""
             /\ \/ s[2] = "tmp"
                \/ Len(s) >= 3 /\ s[2] \in {"usr", "var"} /\ s[3] = "tmp"
\* the rule looks at the leftmost text only
RECURSIVE Leftmost(_)
Leftmost(e) == IF e.k \in {"plus", "join"} THEN Leftmost(e.l) ELSE Written(e)
Texts == { <<"", "tmp", "x">>, <<"", "tmp">>, <<"", "tmp", "">>, <<"", "var", "tmp", "x">>, <<"", "usr", "tmp", "x">>,
           <<"", "tmpx", "x">>, <<"", "tmp-x", "y">>, <<"", "var", "tmp.d", "">>, <<"", "tmp.txt">>, <<"", "home", "tmp", "x">>, <<"", "var", "lib", "tmp">>, <<"tmp", "x">>, <<"x">>, <<"", "opt", "">> }
Leaf == { [k |-> "text", segs |-> t] : t \in Texts } \cup { [k |-> "temp", segs |-> << >>] }
Tails == { [k |-> "text", segs |-> <<"", "tmp", "y">>], [k |-> "text", segs |-> <<"", "y">>], [k |-> "text", segs |-> <<"y">>], [k |-> "call", segs |-> << >>] }
\* additions which do not complete the name of a directory
Fits(l, e) == \/ l.k \in {"temp"} /\ Head(Written(e)) = ""
              \/ l.k # "temp" /\ (Last(Leftmost(l)) = "" \/ Head(Written(e)) = "")
One == { [k |-> "plus", l |-> l, r |-> e] : l \in Leaf, e \in Tails } 
Plus == { x \in One : Fits(x.l, x.r) }
Joined == { [k |-> "join", l |-> l, r |-> e] : l \in Leaf \cup Plus, e \in Tails }
Paths == Leaf \cup Plus \cup Joined \cup { [k |-> "plus", l |-> j, r |-> e] : j \in { x \in Joined : x.l.k # "plus" }, e \in { t \in Tails : Head(Written(t)) = "" } }
ASSUME LeftmostDecides == \A e \in Paths : e.k = "text" \/ (Shared(Leftmost(e)) <=> Shared(Written(e)))

(* --------------------------------------------- values written in the call *)
\* calls which are dangerous with some arguments or elements, written in the call
Direct == [
  G111 |-> [danger |-> {"root", "rootRaw", "rootParens"}, safe |-> {"dot", "www", "rootx", "empty", "call"}],
  G112 |-> [danger |-> {"none", "addr", "write", "idle", "nested"}, safe |-> {"header", "read", "both", "headerLast"}],
  G203 |-> [danger |-> {"variable", "call", "concat", "element", "field", "const"}, safe |-> {"text", "raw", "empty"}],
  G110 |-> [danger |-> {"bzip2", "flate", "flateDict", "lzw", "tar"}, safe |-> {"bytes", "limited"}],
  G102 |-> [danger |-> {"any4", "any6", "noHost"}, safe |-> {"local", "named", "one6", "other4", "dashes", "digits"}],
  G305 |-> [danger |-> {"zipName", "tarName", "tarLink"}, safe |-> {"text", "base", "ownName"}]]
Callees == [
  G111 |-> [danger |-> {"dir"}, safe |-> {"other", "own"}],
  G112 |-> [danger |-> {"value", "pointer", "element", "pointerElement", "alias", "mapValue"}, safe |-> {"own", "ownElement"}],
  G203 |-> [danger |-> {"CSS", "HTML", "HTMLAttr", "JS", "JSStr", "Srcset", "URL"}, safe |-> {"escape", "own", "text"}],
  G303 |-> [danger |-> {"create", "writeFile", "ioutil"}, safe |-> {"open", "remove", "mkdir", "own"}],
  G110 |-> Sinks.G110, G102 |-> Sinks.G102, G305 |-> Sinks.G305]
MustReportCall(o) ==
  /\ o.callee \in Callees[o.rule].danger
  /\ IF o.rule = "G303" THEN Shared(Written(o.arg)) ELSE o.arg \in Direct[o.rule].danger
KnownCall(o) ==
  /\ o.callee \in Callees[o.rule].danger \cup Callees[o.rule].safe
  /\ IF o.rule = "G303" THEN o.arg \in Paths ELSE o.arg \in Direct[o.rule].danger \cup Direct[o.rule].safe
==============================================================================
