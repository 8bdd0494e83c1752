---------------------------- MODULE ExportTrace ----------------------------
(***************************************************************************)
(* Validates recorded exports and imports of corpora against Exchange.     *)
(* Every event has the answers of all execution configurations.            *)
(***************************************************************************)
EXTENDS Exchange, TraceBase

VARIABLES tid, l, db
vars == <<tid, l, db>>
Ev == Traces[tid].ev[l]

TraceInit == /\ tid \in 1..NTraces
             /\ l = 1
             /\ db = <<>>

IsEvent(k) == /\ l <= Len(Traces[tid].ev) /\ Ev.e = k /\ l' = l + 1 /\ tid' = tid

GraphOf(us) == FoldLeft(LAMBDA g, u : ApplyList(g, u), EmptyGraph, us)
Described == [g |-> TLCEval(GraphOf(Ev.us)), files |-> ASet(Ev.files), cfg |-> Ev.cfg, base |-> Ev.base, size |-> Ev.size]

Load == IsEvent("Load") /\ db' = (Ev.c :> Import(Described, Ev.base)) @@ db
Build == IsEvent("Build") /\ db' = (Ev.c :> Described) @@ db
Asked == (\E k \in {"Text", "Trip", "Fail"} : IsEvent(k)) /\ UNCHANGED db

Each(P(_)) == \A i \in DOMAIN Ev.ans :
  IF Has(Ev.ans[i], "err") THEN Report(tid, l, Ev.e \o " failed: " \o Ev.ans[i].cfg, "success", Ev.ans[i].err)
  ELSE P(Ev.ans[i])

\* (edges of the token index are compared where they are part of the answer and the text is well-formed)
SameGraph(s, g, what, index) ==
  LET X == IF WellFormedText(g) THEN IndexOf(g) ELSE ASet(s.xo) IN
  Expect(/\ ASet(s.labels) = g.labels /\ s.nl = Cardinality(g.labels)
         /\ ASet(s.eo) = g.edges /\ ASet(s.ei) = g.edges
         /\ ASet(s.elabels) = g.elabels /\ s.nel = Cardinality(g.elabels)
         /\ index => ASet(s.xo) = X /\ ASet(s.xi) = X
         /\ s.odd = <<>>,
         tid, l, what, [lmiss |-> g.labels \ ASet(s.labels), emiss |-> g.edges \ ASet(s.eo), elmiss |-> g.elabels \ ASet(s.elabels), xmiss |-> X \ ASet(s.xo)],
         [lextra |-> ASet(s.labels) \ g.labels, eextra |-> ASet(s.eo) \ g.edges, elextra |-> ASet(s.elabels) \ g.elabels, xextra |-> ASet(s.xo) \ X, odd |-> s.odd])

Text ==
  \E g \in {TLCEval(GraphOf(Ev.us))} :
    Each(LAMBDA a :
      /\ Expect(a.v.text, tid, l, "stable text changed by round trip: " \o a.cfg, TRUE, FALSE)
      /\ Expect(a.v.c1 /\ a.v.c2, tid, l, "configuration changed: " \o a.cfg, TRUE, <<a.v.c1, a.v.c2>>)
      /\ SameGraph(a.v.st1, g, "stable round trip: " \o a.cfg, TRUE)
      /\ SameGraph(a.v.st2, g, "round trip: " \o a.cfg, TRUE))

Created == Each(LAMBDA a : Expect(a.c = Ev.cfg, tid, l, "configuration: " \o a.cfg, Ev.cfg, a.c))

RECURSIVE Trips(_, _)
Trips(c, n) == IF n = 0 THEN c ELSE Trips(Trip(c, c.base), n - 1)

TripOf(a) ==
  /\ Expect(ASet(a.v.names) = ASet(Ev.cs) /\ Len(a.v.names) = Len(Ev.cs), tid, l, "names of imported corpora: " \o a.cfg, Ev.cs, a.v.names)
  /\ Expect(ASet(a.v.list) = ASet(Ev.cs), tid, l, "imported corpora: " \o a.cfg, Ev.cs, a.v.list)
  /\ \A i \in DOMAIN a.v.after :
       LET x == a.v.after[i]  y == a.v.before[i]
           \* the corpus size in the source might have been updated when the corpus was optimized
           want == TLCEval(Trips([db[x.c] EXCEPT !.size = y.size], Ev.hops))
       IN /\ SameGraph(x.st, want.g, "imported graph: " \o a.cfg, TRUE)
          /\ Expect(ASet(x.st.files) = Linked(want), tid, l, "linked files: " \o a.cfg, Linked(want), x.st.files)
          /\ Expect(x.cfg = want.cfg /\ y.cfg = want.cfg, tid, l, "configuration: " \o a.cfg, want.cfg, <<y.cfg, x.cfg>>)
          /\ Expect(x.size = want.size, tid, l, "corpus size: " \o a.cfg, want.size, x.size)
          /\ Expect(x.q = y.q, tid, l, "answers of queries: " \o a.cfg, y.q, x.q)

Answers ==
  l <= Len(Traces[tid].ev) =>
    CASE Ev.e = "Text" -> Text
      [] Ev.e \in {"Load", "Build"} -> Created
      [] Ev.e = "Trip" -> Each(TripOf)
      [] Ev.e = "Fail" -> Report(tid, l, "call failed", "success", Ev.what)
      [] OTHER -> TRUE

TraceNext == Load \/ Build \/ Asked
TraceSpec == TraceInit /\ [][TraceNext]_vars
TypeInv == \A c \in DOMAIN db : NoDangling(db[c].g) /\ Functional(db[c].g)
=============================================================================
