-------------------------------- MODULE Nonces --------------------------------
(* Initialisation vectors and nonces which are the same each time (G407).      *)
(*                                                                             *)
(* A program is a set of calls: a function (0: none with a parameter) passes   *)
(* its own parameter, a fixed value or a random one to a cipher or to another  *)
(* function.  A fixed value has to be reported where it is passed to a cipher, *)
(* or to a function from whose parameter a cipher gets it, over any number of  *)
(* calls.  The analyser works backwards: from the ciphers to the parameters    *)
(* they are given, and on to the calls which pass something for these.         *)
EXTENDS Util, FiniteSetsExt
CONSTANTS Functions,   \* a set of numbers, without 0
          MaxCalls,
          Fault
Cipher == 100
Calls == { c \in [from : {0} \cup Functions, to : {Cipher} \cup Functions, arg : {"param", "fixed", "random"}] : c.arg = "param" => c.from # 0 }

(* ------------------------------------------------------- what has to be *)
RECURSIVE Grow(_, _)
Grow(G, R) == LET N == R \cup { c.from : c \in { d \in G : d.arg = "param" /\ (d.to = Cipher \/ d.to \in R) } }
              IN IF N = R THEN R ELSE Grow(G, N)
Reaching(G) == Grow(G, {})          \* the functions whose parameter reaches a cipher
MustReport(G) == { c \in G : c.arg = "fixed" /\ (c.to = Cipher \/ c.to \in Reaching(G)) }

(* ------------------------------------------------------------- the analysis *)
VARIABLES graph, pending, followed, reported
vars == <<graph, pending, followed, reported>>
Init == /\ graph \in UNION { kSubset(k, Calls) : k \in 1..MaxCalls }
        /\ pending = {Cipher} /\ followed = {} /\ reported = {}
Follow(t) ==
  /\ t \in pending
  /\ LET into == { c \in graph : c.to = t }
         some == IF Fault = "first" /\ into # {} THEN { CHOOSE c \in into : TRUE } ELSE into IN
       /\ reported' = reported \cup { c \in some : c.arg = "fixed" }
                      \cup (IF Fault = "random" /\ t # Cipher THEN { c \in some : c.arg = "random" } ELSE {})
       /\ LET new == { c.from : c \in { d \in some : d.arg = "param" } } \ followed IN
            pending' = (pending \ {t}) \cup (IF Fault = "once" /\ t # Cipher THEN {} ELSE new)
  /\ followed' = followed \cup {t}
  /\ UNCHANGED graph
Next == \E t \in pending : Follow(t)
NSpec == Init /\ [][Next]_vars /\ WF_vars(Next)
Exact == pending = {} => reported = MustReport(graph)
Sound == Fault = "" => reported \subseteq MustReport(graph)
Ends == <>(pending = {})

(* ------------------------------------------------------------- the values *)
Values == [fixed |-> {"bytes", "text", "local", "localText", "global", "function", "literalCall", "zeros", "array", "mathRand", "overwritten", "besideFilled", "capturedBeside", "tornFrom", "namedText", "namedSlice", "namedLocal"},
           random |-> {"read", "readFull", "reader", "function", "functionFull", "functionVia", "functionReader", "array", "prefix", "whole", "captured", "atLeast", "helper", "inLiteral", "namedSlice", "namedOther"}]
Ciphers == [danger |-> {"Seal", "CBC", "CFB", "CTR", "OFB"}, safe |-> {"Open", "CBCDec", "CFBDec", "lookalike", "lookalikeMethod", "data"}]

\* a recorded program: calls carry the form of the value and of the cipher
Abs(cs) == { [from |-> cs[i].from, to |-> IF cs[i].to = Cipher /\ cs[i].cipher \in Ciphers.safe THEN Cipher + i ELSE cs[i].to, arg |-> cs[i].arg] : i \in DOMAIN cs }
MustReportAt(cs) == LET G == Abs(cs) IN
  { i \in DOMAIN cs : cs[i].arg = "fixed"
                      /\ \/ cs[i].to = Cipher /\ cs[i].cipher \in Ciphers.danger
                         \/ cs[i].to \in Reaching(G) }
KnownCalls(cs) == \A i \in DOMAIN cs :
  /\ cs[i].arg # "param" => cs[i].value \in Values[cs[i].arg]
  /\ cs[i].to = Cipher => cs[i].cipher \in Ciphers.danger \cup Ciphers.safe

ASSUME Emit(IF "VALUES" \in DOMAIN IOEnv THEN UNION { { [table |-> "value", danger |-> k = "fixed", name |-> v] : v \in Values[k] } : k \in DOMAIN Values } \cup UNION { { [table |-> "cipher", danger |-> k = "danger", name |-> v] : v \in Ciphers[k] } : k \in DOMAIN Ciphers }
            ELSE IF "EMIT" \in DOMAIN IOEnv THEN UNION { kSubset(k, Calls) : k \in 1..(MaxCalls - 1) } ELSE {})
===============================================================================
