----------------------------- MODULE RelTrace -----------------------------
(***************************************************************************)
(* Validates recorded imports of relANNIS corpora against RelAnnis.        *)
(***************************************************************************)
EXTENDS RelAnnis, TraceBase

VARIABLES tid, l
vars == <<tid, l>>
Ev == Traces[tid].ev[l]
TraceInit == tid \in 1..NTraces /\ l = 1
TraceNext == l <= Len(Traces[tid].ev) /\ Ev.e \in {"Rel", "Fail"} /\ l' = l + 1 /\ tid' = tid
TraceSpec == TraceInit /\ [][TraceNext]_vars

SameGraph(s, g, what) ==
  LET X == IF WellFormedText(g) THEN IndexOf(g) ELSE ASet(s.xo) IN
  Expect(/\ ASet(s.labels) = g.labels /\ s.nl = Cardinality(g.labels)
         /\ ASet(s.eo) = g.edges /\ ASet(s.ei) = g.edges
         /\ ASet(s.elabels) = g.elabels /\ s.nel = Cardinality(g.elabels)
         /\ ASet(s.xo) = X /\ ASet(s.xi) = X
         /\ s.odd = <<>>,
         tid, l, what, [lmiss |-> g.labels \ ASet(s.labels), emiss |-> g.edges \ ASet(s.eo), elmiss |-> g.elabels \ ASet(s.elabels), xmiss |-> X \ ASet(s.xo)],
         [lextra |-> ASet(s.labels) \ g.labels, eextra |-> ASet(s.eo) \ g.edges, elextra |-> ASet(s.elabels) \ g.elabels, xextra |-> ASet(s.xo) \ X, odd |-> s.odd])

Is(what, a, want, got) == Expect(got = want, tid, l, what \o ": " \o a.cfg, want, got)
\* the pairs of a mapping in any order
Rule(x) == [x EXCEPT !.map = ASet(@)]

Refused(a) ==
  /\ Expect(a.v.name = <<>>, tid, l, "broken corpus imported: " \o a.cfg, "error", a.v.name)
  /\ Expect(a.v.list = a.v.was, tid, l, "corpora after a failed import: " \o a.cfg, a.v.was, a.v.list)

Imported(a, g) ==
  IF a.v.name = <<>> THEN Report(tid, l, "import failed: " \o a.cfg, "success", "error")
  ELSE
  LET T == Ev.t  c == a.v.cfg  vis == RelVis(T)  st == RelStrategy(T) IN
  /\ Is("name", a, <<Ev.name>>, a.v.name)
  /\ Is("list", a, <<Ev.name>>, a.v.list)
  /\ SameGraph(a.v.st, g, "imported graph: " \o a.cfg)
  /\ Is("linked files", a, RelFiles(T), ASet(a.v.st.files))
  /\ Is("visualizers", a, [i \in DOMAIN vis |-> Rule(vis[i])], IF c.vis = <<>> /\ T.vis = <<>> THEN [i \in DOMAIN vis |-> Rule(vis[i])] ELSE [i \in DOMAIN c.vis |-> Rule(c.vis[i])])
  /\ Is("example queries", a, T.examples, c.examples)
  /\ Is("context", a, [default |-> RelOr(RelNum(T, "default-context"), 5), sizes |-> RelSizes(T), max |-> RelNum(T, "max-context"), seg |-> RelText(T, "default-context-segmentation")], c.ctx)
  /\ Is("view", a, [base |-> RelText(T, "default-base-text-segmentation"), page |-> RelOr(RelNum(T, "results-per-page"), 10), hidden |-> RelList(T, "hidden_annos"),
                    strategy |-> st.strategy, map |-> st.map], [c.view EXCEPT !.map = ASet(@)])
  /\ Is("corpus size", a, RelSize(T, g), c.size)

Each(P(_)) == \A i \in DOMAIN Ev.ans :
  IF Has(Ev.ans[i], "err") THEN Report(tid, l, "import failed: " \o Ev.ans[i].cfg, "answer", Ev.ans[i].err)
  ELSE P(Ev.ans[i])
Answers ==
  l <= Len(Traces[tid].ev) =>
    IF Ev.e = "Fail" THEN Report(tid, l, "call failed", "success", Ev.what)
    ELSE IF Ev.bad THEN Each(Refused)
    ELSE \E g \in {TLCEval(RelGraph(Ev.t))} :
           /\ Expect(NoDangling(g) /\ Functional(g), tid, l, "tables describe no graph", "", "")
           /\ Each(LAMBDA a : Imported(a, g))
=============================================================================
