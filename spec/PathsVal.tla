------------------------------ MODULE PathsVal ------------------------------
(* o.kind = "expand": o.go dirs with Go files (sequences of names below the   *)
(* top), o.root, o.excl, o.got: returned directories below the top, o.plain:  *)
(* the argument does not end in "...".                                        *)
(* o.kind = "scan": o.args of [root, plain], o.excl, o.go, o.got: directories *)
(* analysed, with repetition.                                                 *)
EXTENDS Conform, FiniteSets
M == INSTANCE Paths WITH Names <- {}, Depth <- 0, gofiles <- {}, root <- << >>, excl <- {}, todo <- {}, paths <- << >>
Set(s) == { s[i] : i \in DOMAIN s }
Show(d) == ToString(d)
Stands(go, r, plain, X) == IF plain THEN {r} ELSE M!Expand(go, r, X)
JudgeImpl(o) ==
  LET X == Set(o.excl)
      go == Set(o.go)
      want == IF o.kind = "expand" THEN Stands(go, o.root, o.plain, X)
              ELSE UNION { Stands(go, o.args[i].root, o.args[i].plain, X) : i \in DOMAIN o.args } \cap go
      got == Set(o.got)
  IN { "missing " \o Show(d) : d \in want \ got } \cup { "wrong " \o Show(d) : d \in got \ want }
     \cup (IF Len(o.got) = Cardinality(got) THEN {} ELSE {"a directory appears more than once"})
=============================================================================
