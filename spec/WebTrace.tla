------------------------------ MODULE WebTrace ------------------------------
(***************************************************************************)
(* Validates recorded requests and answers of the web service (a process   *)
(* of its own) against WebService.                                         *)
(***************************************************************************)
EXTENDS WebService, TraceBase

VARIABLES tid, l, s
vars == <<tid, l, s>>
Ev == Traces[tid].ev[l]
names == Traces[tid].names

TraceInit == /\ tid \in 1..NTraces
             /\ l = 1
             /\ s = [db |-> <<>>, groups |-> <<>>, open |-> FALSE, blobs |-> <<>>]
IsEvent(k) == /\ l <= Len(Traces[tid].ev) /\ Ev.e = k /\ l' = l + 1 /\ tid' = tid

AsFunction(q) == [c \in {q[i][1] : i \in DOMAIN q} |-> (CHOOSE p \in Elems(q) : p[1] = c)[2]]

Start == IsEvent("Start") /\ s' = [s EXCEPT !.db = AsFunction(Ev.cs), !.open = Ev.open]
Upload == IsEvent("Zip") /\ s' = [s EXCEPT !.blobs = (Ev.b :> AsFunction(Ev.cs)) @@ @]
\* the process was killed and started again: nothing is lost
Restart == IsEvent("Restart") /\ s' = [s EXCEPT !.open = Ev.open]
Request == IsEvent("Req") /\ s' = After(s, Ev.r, Ev.a)

(***************************************************************************)
(* Requests at the same time: there is an order that explains all answers  *)
(* and the groups afterwards.  The database might be busy: then a request  *)
(* has no effect.                                                          *)
(***************************************************************************)
Busy(e) == e.a.st = 502
Orders(n) == {f \in [1..n -> 1..n] : \A i, j \in 1..n : f[i] = f[j] => i = j}
Explains(f) ==
  LET ok == FoldLeft(LAMBDA x, i :
              LET e == Ev.rs[f[i]] IN
              IF Busy(e) THEN x
              ELSE [ok |-> x.ok /\ Right(x.s, names, e.r, e.a), s |-> After(x.s, e.r, e.a)],
              [ok |-> TRUE, s |-> s], [i \in DOMAIN Ev.rs |-> i])
  IN ok.ok /\ Groups(ok.s, Ev.fin)
Parallel ==
  /\ IsEvent("Par")
  /\ s' = [s EXCEPT !.groups = IF Ev.fin.st = 200 THEN [g \in {e[1] : e \in Elems(Ev.fin.r)} |-> Elems((CHOOSE e \in Elems(Ev.fin.r) : e[1] = g)[2])] ELSE @]

TraceNext == Start \/ Upload \/ Restart \/ Request \/ Parallel
TraceSpec == TraceInit /\ [][TraceNext]_vars

Answers ==
  l <= Len(Traces[tid].ev) =>
    CASE Ev.e = "Req" -> Expect(Right(s, names, Ev.r, Ev.a), tid, l, "answer of the service: " \o Ev.r.k,
                                [r |-> Ev.r, permitted |-> Permitted(s.groups, Ev.r.who), db |-> DOMAIN s.db, open |-> s.open], Ev.a)
      [] Ev.e = "Par" -> Expect(\E f \in Orders(Len(Ev.rs)) : Explains(f), tid, l, "concurrent requests", s.groups, [rs |-> Ev.rs, fin |-> Ev.fin])
      [] OTHER -> TRUE
TypeInv == DOMAIN s = {"db", "groups", "open", "blobs"}
=============================================================================
