----------------------------- MODULE NamesVal -------------------------------
(* One observation per place: x.kind "call" (a call of q.fn), "lit" (a       *)
(* composite literal of type q.fn; x.safe: it sets a header timeout) or      *)
(* "import" (one import declaration x.imp); x.env, x.q, x.fn; x.got: rules   *)
(* reported there.                                                           *)
EXTENDS Conform, FiniteSets
N == INSTANCE Names WITH env <- [imports |-> << >>], use <- "", depth <- 0, res <- ""
Set(s) == { s[i] : i \in DOMAIN s }

Fns(path, rule, fns) == { <<path, f, rule>> : f \in fns }
Risky ==
  Fns("crypto/md5", "G401", {"New", "Sum"}) \cup Fns("crypto/sha1", "G401", {"New", "Sum"})
  \cup Fns("crypto/des", "G405", {"NewCipher", "NewTripleDESCipher"}) \cup Fns("crypto/rc4", "G405", {"NewCipher"})
  \cup Fns("golang.org/x/crypto/md4", "G406", {"New"}) \cup Fns("golang.org/x/crypto/ripemd160", "G406", {"New"})
  \cup Fns("math/rand", "G404", {"New", "Read", "Float32", "Float64", "Int", "Int31", "Int31n", "Int63", "Int63n", "Intn", "NormFloat64", "Uint32", "Uint64"})
  \cup Fns("math/rand/v2", "G404", {"New", "Float32", "Float64", "Int", "Int32", "Int32N", "Int64", "Int64N", "IntN", "N", "NormFloat64", "Uint32", "Uint32N", "Uint64", "Uint64N", "UintN"})
  \cup Fns("unsafe", "G103", {"Pointer", "String", "StringData", "Slice", "SliceData"})
  \cup Fns("golang.org/x/crypto/ssh", "G106", {"InsecureIgnoreHostKey"})
  \cup Fns("net/http", "G114", {"ListenAndServe", "ListenAndServeTLS", "Serve", "ServeTLS"})
Blocked == [p \in {"crypto/md5", "crypto/des", "crypto/rc4", "net/http/cgi", "crypto/sha1", "golang.org/x/crypto/md4", "golang.org/x/crypto/ripemd160"} |->
   CASE p = "crypto/md5" -> "G501" [] p = "crypto/des" -> "G502" [] p = "crypto/rc4" -> "G503" [] p = "net/http/cgi" -> "G504"
     [] p = "crypto/sha1" -> "G505" [] p = "golang.org/x/crypto/md4" -> "G506" [] p = "golang.org/x/crypto/ripemd160" -> "G507"]

Env(x) == [locals |-> [i \in DOMAIN x.locals |-> Set(x.locals[i])], pkg |-> Set(x.pkg), imports |-> x.imports]
WantRules(x) ==
  CASE x.kind = "call" -> { r[3] : r \in { s \in Risky : s[1] = N!Refers(Env(x), x.q, x.fn) /\ s[2] = x.fn } }
    [] x.kind = "lit"  -> IF N!Refers(Env(x), x.q, x.fn) = "net/http" /\ x.fn = "Server" /\ ~x.safe THEN {"G112"} ELSE {}
    [] x.kind = "import" -> (IF x.imp.path \in DOMAIN Blocked THEN {Blocked[x.imp.path]} ELSE {})
                            \cup (IF x.imp.path = "net/http/pprof" /\ x.imp.name = "_" THEN {"G108"} ELSE {})
JudgeImpl(x) ==
  IF ~N!Legal(Env(x)) THEN {"generator: " \o ToString(x.imports)} ELSE
  LET want == WantRules(x)  got == Set(x.got)
  IN { "not reported: " \o r : r \in want \ got } \cup { "wrongly reported: " \o r : r \in got \ want }
     \cup (IF Len(x.got) = Cardinality(got) THEN {} ELSE {"reported twice"})
=============================================================================
