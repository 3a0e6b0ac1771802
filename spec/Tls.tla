-------------------------------- MODULE Tls ---------------------------------
(* TLS settings and RSA key sizes (C19).  A node is a configuration literal  *)
(* or an assignment to one of its fields: [lit, set], set a sequence of      *)
(* [f, v]; v is "true" / "false" / "var" / "expr" for flags, a number or -1  *)
(* (cannot be told) for versions, a sequence of suite names for suites ("?"  *)
(* cannot be told).                                                          *)
EXTENDS Util, Integers

GoodSuites == { "TLS_AES_128_GCM_SHA256", "TLS_AES_256_GCM_SHA384", "TLS_CHACHA20_POLY1305_SHA256",
  "TLS_ECDHE_ECDSA_WITH_AES_128_GCM_SHA256", "TLS_ECDHE_RSA_WITH_AES_128_GCM_SHA256",
  "TLS_ECDHE_ECDSA_WITH_AES_256_GCM_SHA384", "TLS_ECDHE_RSA_WITH_AES_256_GCM_SHA384",
  "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305", "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305",
  "TLS_ECDHE_ECDSA_WITH_CHACHA20_POLY1305_SHA256", "TLS_ECDHE_RSA_WITH_CHACHA20_POLY1305_SHA256" }
Tls12 == 771
Tls13 == 772

\* the problem one setting is, by itself
SettingProblem(s) == CASE s.f = "verify" -> (IF s.v = "false" THEN {} ELSE {"verify"})
                       [] s.f = "prefer" -> (IF s.v \in {"false", "expr"} THEN {"prefer"} ELSE {})
                       [] s.f = "suites" -> (IF ToSetOf(s.v) \subseteq GoodSuites \cup {"?"} THEN {} ELSE {"suite"})
                       [] s.f = "min" -> (IF s.v # -1 /\ s.v < Tls12 THEN {"min"} ELSE {})
                       [] s.f = "max" -> (IF s.v > 0 /\ s.v < Tls13 THEN {"max"} ELSE {})
                       [] OTHER -> {}
\* the minimum which cannot be told counts as not set
NoMin(set) == ~ \E i \in DOMAIN set : set[i].f = "min" /\ set[i].v # -1
Problems(node) == UNION { SettingProblem(node.set[i]) : i \in DOMAIN node.set } \cup (IF node.lit /\ NoMin(node.set) THEN {"min"} ELSE {})

ShortKey(constant, bits) == constant /\ bits < 2048

----------------------------------------------------------------------------
\* The rule at work: it goes through the nodes of a package setting by
\* setting and has to remember the versions until a literal ends.
CONSTANTS MaxNodes, MaxSet
Settings == { [f |-> "verify", v |-> x] : x \in {"true", "false"} } \cup { [f |-> "min", v |-> x] : x \in {-1, 0, 769, 771} }
            \cup { [f |-> "max", v |-> x] : x \in {-1, 0, 771, 772} } \cup { [f |-> "suites", v |-> x] : x \in { << >>, <<"BAD">> } } \cup { [f |-> "other", v |-> 0] }
Distinct(set) == \A i, j \in DOMAIN set : i # j => set[i].f # set[j].f
Sets == { t \in UNION { [1..n -> Settings] : n \in 0..MaxSet } : Distinct(t) }
Nodes == [lit : {TRUE}, set : Sets] \cup [lit : {FALSE}, set : { t \in Sets : Len(t) = 1 }]
VARIABLES done, node, i, min, max, found
vars == <<done, node, i, min, max, found>>
\* versions before anything is set: an assignment says nothing about the other field
Start(n) == IF n.lit THEN <<0, 0>> ELSE <<Tls12, Tls13>>
Take(n) == node' = n /\ i' = 1 /\ min' = Start(n)[1] /\ max' = Start(n)[2] /\ found' = {}
Init == done = << >> /\ node \in Nodes /\ i = 1 /\ min = Start(node)[1] /\ max = Start(node)[2] /\ found = {}
Look == /\ i <= Len(node.set) /\ found = {}
        /\ LET s == node.set[i] IN
           /\ min' = IF s.f = "min" /\ s.v # -1 THEN s.v ELSE min
           /\ max' = IF s.f = "max" /\ s.v # -1 THEN s.v ELSE max
           /\ found' = IF s.f \in {"min", "max"} THEN {} ELSE SettingProblem(s)
        /\ i' = i + 1 /\ UNCHANGED <<done, node>>
Versions == IF min < Tls12 THEN {"min"} ELSE IF max # 0 /\ max < Tls13 THEN {"max"} ELSE {}
Verdict == IF found # {} THEN found ELSE Versions
AtEnd == i > Len(node.set) \/ found # {}
Close == /\ AtEnd /\ Len(done) < MaxNodes
         /\ done' = Append(done, [node |-> node, verdict |-> Verdict])
         /\ \E n \in Nodes : Take(n)
Next == Look \/ Close
Spec == Init /\ [][Next]_vars
\* what is found is a problem of this very node, and something is found exactly when there is one
Exact == \A k \in DOMAIN done : LET p == Problems(done[k].node) v == done[k].verdict IN v \subseteq p /\ (v = {} <=> p = {}) /\ Cardinality(v) <= 1
=============================================================================
