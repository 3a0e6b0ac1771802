------------------------------- MODULE TlsVal -------------------------------
(* x.kind = "conf": x.lit, x.set as in Tls.tla, x.mine: of the real type;    *)
(* x.got: problems reported for the node.  x.kind = "rsa": x.constant,       *)
(* x.bits, x.mine, x.got: number of reports.                                 *)
EXTENDS Conform, FiniteSets, Integers
T == INSTANCE Tls WITH MaxNodes <- 0, MaxSet <- 0, done <- << >>, node <- 0, i <- 0, min <- 0, max <- 0, found <- {}
Set(s) == { s[i] : i \in DOMAIN s }
Conf(x) == LET want == IF x.mine THEN T!Problems([lit |-> x.lit, set |-> x.set]) ELSE {} got == Set(x.got) IN
  (IF want # {} /\ got = {} THEN {"not reported: " \o ToString(want)} ELSE {})
  \cup { "wrongly reported: " \o g : g \in got \ want }
  \cup (IF Len(x.got) > 1 THEN {"reported twice"} ELSE {})
Rsa(x) == LET want == IF x.mine /\ T!ShortKey(x.constant, x.bits) THEN 1 ELSE 0 IN
  IF x.got = want THEN {} ELSE IF x.got < want THEN {"short key not reported"} ELSE {"wrongly reported"}
JudgeImpl(x) == IF x.kind = "conf" THEN Conf(x) ELSE Rsa(x)
=============================================================================
