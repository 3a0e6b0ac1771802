----------------------------- MODULE ReportVal ------------------------------
(* o.kind = "doc": records read back from a document of format o.fmt;        *)
(*          "fault": a write that failed; o.told says whether it was reported *)
EXTENDS Conform, Report
JudgeImpl(o) ==
  IF o.kind = "fault" THEN (IF o.told THEN {} ELSE {"a failed write was not reported"})
  ELSE IF ~o.wellformed THEN {"not well-formed: " \o o.fmt}
  ELSE LET D == DocFaults(o.fmt, o.records, o.findings, o.roots) IN
       { o.fmt \o ": " \o ToString(x) : x \in D }
       \cup (IF o.fmt = "sarif" /\ o.deep THEN { "sarif: " \o ToString(x) : x \in SarifFaults(o.doc, o.findings) } ELSE {})
=============================================================================
