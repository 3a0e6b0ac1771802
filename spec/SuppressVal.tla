---------------------------- MODULE SuppressVal -----------------------------
(* Judges recorded functions: o.annots [s,e,rules,id,just], o.finds          *)
(* [s,e,rule], o.opts, o.got: per finding [listed, nosec, ins, ext] as read  *)
(* from the report, where ins is the sequence of in-source justifications.   *)
EXTENDS Conform, FiniteSets, SequencesExt

D == INSTANCE Suppress WITH MaxLine <- 1, Rules <- {}, MaxAnnots <- 0,
                            Merge <- "equal", FirstOnly <- FALSE,
                            annots <- {}, todo <- {}, table <- << >>
Set(s) == { s[i] : i \in DOMAIN s }
Occ(s, x) == Cardinality({ i \in DOMAIN s : s[i] = x })

AnnotsOf(o) == { [s |-> o.annots[i].s, e |-> o.annots[i].e, rules |-> Set(o.annots[i].rules), id |-> i] :
                 i \in DOMAIN o.annots }
OptsOf(o) == [track |-> o.opts.track, show |-> o.opts.show, off |-> o.opts.off, deselected |-> Set(o.opts.deselected)]

FindingOk(o, A, p, i) ==
  LET f == o.finds[i]
      g == o.got[i]
      js == [ k \in DOMAIN o.annots |-> o.annots[k].just ]
      want == { a.id : a \in D!InRecords(A, p, f) }
      \* in-source records are compared as a bag of justifications
      wantCount(j) == Cardinality({ k \in want : js[k] = j })
  IN /\ g.listed = (IF D!Listed(A, p, f) THEN 1 ELSE 0)
     /\ g.listed = 1 =>
          /\ g.nosec = D!NoSecMark(A, p, f)
          /\ Len(g.ins) = Cardinality(want)
          /\ \A k \in DOMAIN g.ins : Occ(g.ins, g.ins[k]) = wantCount(g.ins[k])
          /\ g.ext = D!ExtRecords(p, f)

\* counters of a whole scan: o.annots annotations present, o.open reported findings
\* without record or mark
JudgeCount(o) ==
  (IF o.nosec = (IF o.off THEN 0 ELSE o.annots) THEN {} ELSE {"annotation counter " \o ToString(o.nosec) \o " for " \o ToString(o.annots) \o " annotations"})
  \cup (IF o.found = o.open THEN {} ELSE {"found counter " \o ToString(o.found) \o " for " \o ToString(o.open) \o " open findings"})

JudgeImpl(o) == IF o.kind = "count" THEN JudgeCount(o) ELSE
  LET A == AnnotsOf(o)
      p == OptsOf(o)
  IN { "finding " \o ToString(o.finds[i]) \o " observed " \o ToString(o.got[i]) :
         i \in { j \in DOMAIN o.finds : ~FindingOk(o, A, p, j) } }
=============================================================================
