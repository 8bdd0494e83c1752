------------------------------ MODULE AqlTrace ------------------------------
(***************************************************************************)
(* Validates recorded query results against Aql.  A trace builds a graph   *)
(* by update lists ("Update") and asks queries ("Query") of it; the        *)
(* answers of all execution configurations are part of the event.          *)
(***************************************************************************)
EXTENDS Aql, TraceBase

VARIABLES tid, l, g
vars == <<tid, l, g>>
Ev == Traces[tid].ev[l]
cp == Traces[tid].cp

TraceInit == /\ tid \in 1..NTraces
             /\ l = 1
             /\ g = EmptyGraph

IsEvent(k) == /\ l <= Len(Traces[tid].ev) /\ Ev.e = k /\ l' = l + 1 /\ tid' = tid

Update == /\ IsEvent("Update")
          /\ g' = TLCEval(ApplyList(g, Ev.us))

\* events which do not change the content: their answers are judged by the
\* predicate Answers of the state before them
Asked == /\ \E k \in {"Query", "Same", "Fail"} : IsEvent(k)
         /\ UNCHANGED g

\* one answer: [r |-> <<tuple, ...>>] or [err |-> text]
Answer(a, M) ==
  IF Has(a, "err") THEN Report(tid, l, "query failed: " \o a.cfg, M, a.err)
  ELSE /\ Expect(ASet(a.r) = M, tid, l, "matches: " \o a.cfg, [missing |-> M \ ASet(a.r), extra |-> ASet(a.r) \ M, q |-> Ev.text], a.r)
       /\ Expect(NoDup(a.r), tid, l, "duplicates: " \o a.cfg, [q |-> Ev.text], a.r)

Query == LET x == TLCEval(Context(g))
             M == TLCEval(IF Has(Ev, "old") THEN OldMatches(x, Ev.f, cp) ELSE Matches(x, Ev.f, cp))
         IN \A i \in DOMAIN Ev.ans : Answer(Ev.ans[i], M)

\* one query in all configurations and ways to write it: a single answer without duplicates
Same == /\ \A i \in DOMAIN Ev.ans :
              LET a == Ev.ans[i] IN
              IF Has(a, "err") THEN Report(tid, l, "query failed: " \o a.cfg, Ev.text, a.err)
              ELSE Expect(NoDup(a.r), tid, l, "duplicates: " \o a.cfg, [q |-> Ev.text], a.r)
        /\ Expect(Len(Ev.ans) = 1, tid, l, "different answers: " \o Ev.ans[1].cfg, Ev.text, Ev.ans)

Answers ==
  l <= Len(Traces[tid].ev) =>
    CASE Ev.e = "Query" -> Query
      [] Ev.e = "Same"  -> Same
      [] Ev.e = "Fail"  -> Report(tid, l, "call failed", "success", Ev.what)
      [] OTHER -> TRUE

TraceNext == Update \/ Asked
TraceSpec == TraceInit /\ [][TraceNext]_vars
TypeInv == NoDangling(g)
=============================================================================
