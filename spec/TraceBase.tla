----------------------------- MODULE TraceBase -----------------------------
(***************************************************************************)
(* What all trace specifications share.  A trace file has one trace per    *)
(* line: [id |-> number, ev |-> <<event, ...>>, ...].  Every trace is one  *)
(* initial state; each step consumes one event.  An event that the         *)
(* specification does not allow is reported (one REJECT line per event)    *)
(* and the rest of the trace is still checked.                             *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, Json, IOUtils

Traces == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
NTraces == Len(Traces)

\* report a rejected event; always TRUE, so that the step is taken nevertheless
Report(tid, l, what, expected, got) ==
  PrintT("REJECT " \o ToJson([trace |-> Traces[tid].id, line |-> tid, event |-> l, what |-> what,
                              expected |-> expected, got |-> got]))

\* Expect(cond, ...) is TRUE in any case, and reports when cond is FALSE
Expect(cond, tid, l, what, expected, got) ==
  IF cond THEN TRUE ELSE Report(tid, l, what, expected, got)

ASet(s) == {s[i] : i \in DOMAIN s}
NoDup(s) == Cardinality(ASet(s)) = Len(s)
Has(r, f) == f \in DOMAIN r
=============================================================================
