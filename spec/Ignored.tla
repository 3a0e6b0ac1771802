------------------------------- MODULE Ignored -------------------------------
(* Statements whose calls return errors nobody looks at (C21).  A statement   *)
(* drops the results of one call, passes them on, or assigns the results of   *)
(* one call or of several calls with a single result each to operands.        *)
(* A result is of type error, of another name for it (alias), or of another   *)
(* type: plain, custom (a type with an Error method), odd (named error).      *)
(* The walker goes through calls and results one by one.                      *)
EXTENDS Util, Integers
CONSTANTS MaxResults, MaxCalls,
          GoesOn,       \* a call without an error does not end the walk
          AllErrors,    \* every error result of a call is looked at
          OwnPlace      \* the result of the i-th of several calls goes to the i-th operand
Kinds == {"error", "alias", "plain", "custom", "odd"}
IsErr(k) == k \in {"error", "alias"}
Call(l, rs) == [listed |-> l, results |-> rs]
ResultsUpTo(n) == UNION { [1..m -> Kinds] : m \in 0..n }
Targets(n) == [1..n -> {"name", "blank"}]
Stmts == { [form |-> f, calls |-> <<Call(l, rs)>>, targets |-> << >>] : f \in {"drop", "pass"}, l \in BOOLEAN, rs \in ResultsUpTo(MaxResults) }
         \cup UNION { { [form |-> "assign", calls |-> <<Call(l, rs)>>, targets |-> t] : l \in BOOLEAN, rs \in [1..m -> Kinds], t \in Targets(m) } : m \in 1..MaxResults }
         \cup UNION { { [form |-> "assign", calls |-> [i \in 1..m |-> Call(cs[i][1], <<cs[i][2]>>)], targets |-> t]
                        : cs \in [1..m -> BOOLEAN \X (Kinds \ {"custom", "odd"})], t \in Targets(m) } : m \in 2..MaxCalls }

(* What has to be reported. *)
TargetOf(s, i, j) == IF Len(s.calls) = 1 THEN j ELSE i
Lost(s, audit) ==
  \E i \in DOMAIN s.calls : /\ ~s.calls[i].listed
     /\ \E j \in DOMAIN s.calls[i].results :
          /\ IsErr(s.calls[i].results[j])
          /\ \/ s.form = "drop"
             \/ s.form = "assign" /\ audit /\ s.targets[TargetOf(s, i, j)] = "blank"

(* The calls on the list.  A function of a package is [pkgs: the name and the *)
(* path of the package, fn], a method (or field) is [via: the types it is     *)
(* selected from, outermost first, as [ptr, name]; fn]; function values, and  *)
(* functions without a name, are never on it.  Entries are [sel: [ptr, name], fn]. *)
NamedBy(e, c) ==
  /\ e.fn = c.fn
  /\ \/ c.kind = "function" /\ ~e.sel.ptr /\ e.sel.name \in ToSetOf(c.pkgs)
     \/ c.kind = "method" /\ \E i \in DOMAIN c.via : c.via[i].name = e.sel.name /\ (e.sel.ptr => c.via[i].ptr)
Listed(entries, c) == \E e \in entries : NamedBy(e, c)
B(n, fns) == { [sel |-> [ptr |-> FALSE, name |-> n], fn |-> f] : f \in fns }
BuiltIn == B("bytes.Buffer", {"Write", "WriteByte", "WriteRune", "WriteString"}) \cup B("strings.Builder", {"Write", "WriteByte", "WriteRune", "WriteString"})
           \cup B("fmt", {"Print", "Printf", "Println", "Fprint", "Fprintf", "Fprintln"}) \cup B("io.PipeWriter", {"CloseWithError"}) \cup B("hash.Hash", {"Write"}) \cup B("os", {"Unsetenv"})

VARIABLES stmt, audit, i, j, verdict
ivars == <<stmt, audit, i, j, verdict>>
IInit == /\ stmt \in Stmts /\ audit \in BOOLEAN /\ i = 1 /\ j = 1
         /\ verdict = "open"
Looks == stmt.form = "drop" \/ (stmt.form = "assign" /\ audit)
Next0 == UNCHANGED <<stmt, audit>>
End == i > Len(stmt.calls) \/ ~Looks
Finish == verdict = "open" /\ End /\ verdict' = "quiet" /\ UNCHANGED <<i, j>> /\ Next0
Skip == /\ verdict = "open" /\ ~End
        /\ \/ stmt.calls[i].listed
           \/ j > Len(stmt.calls[i].results)
        /\ i' = (IF ~GoesOn /\ ~stmt.calls[i].listed /\ (\A q \in DOMAIN stmt.calls[i].results : ~IsErr(stmt.calls[i].results[q])) THEN Len(stmt.calls) + 1 ELSE i + 1)
        /\ j' = 1 /\ UNCHANGED verdict /\ Next0
Place == IF OwnPlace THEN TargetOf(stmt, i, j) ELSE j
Look == /\ verdict = "open" /\ ~End /\ ~stmt.calls[i].listed /\ j <= Len(stmt.calls[i].results)
        /\ LET e == IsErr(stmt.calls[i].results[j])
               lost == e /\ (stmt.form = "drop" \/ stmt.targets[Place] = "blank")
           IN /\ verdict' = (IF lost THEN "reported" ELSE "open")
              /\ j' = (IF e /\ ~AllErrors THEN Len(stmt.calls[i].results) + 1 ELSE j + 1)
        /\ UNCHANGED i /\ Next0
INext == Finish \/ Skip \/ Look
ISpec == IInit /\ [][INext]_ivars /\ WF_ivars(INext)
Right == verdict # "open" => (verdict = "reported") = Lost(stmt, audit)
Decides == <>(verdict # "open")
ASSUME Emit(IF "EMIT" \in DOMAIN IOEnv THEN Stmts ELSE {})
=============================================================================
