----------------------------- MODULE GraphTrace -----------------------------
(***************************************************************************)
(* Validates histories of a real annotation graph against AnnoGraph: each  *)
(* event is one call, with the complete content of the graph (read through *)
(* outgoing and ingoing edges independently) after it.                     *)
(***************************************************************************)
EXTENDS AnnoGraph, TraceBase

VARIABLES tid, l, g, known
vars == <<tid, l, g, known>>

Ev == Traces[tid].ev[l]

TraceInit == /\ tid \in 1..NTraces
             /\ l = 1
             /\ g = EmptyGraph
             /\ known = TRUE

IsEvent(k) == /\ l <= Len(Traces[tid].ev)
              /\ Ev.e = k
              /\ l' = l + 1
              /\ tid' = tid

\* the recorded content is the content of the abstract graph
Matches(x, st) ==
  /\ Expect(ASet(st.labels) = x.labels, tid, l, "labels", x.labels, st.labels)
  /\ Expect(ASet(st.eo) = x.edges, tid, l, "outgoing edges", x.edges, st.eo)
  /\ Expect(ASet(st.ei) = x.edges, tid, l, "ingoing edges", x.edges, st.ei)
  /\ Expect(ASet(st.elabels) = x.elabels, tid, l, "edge labels", x.elabels, st.elabels)
  /\ Expect(st.nl = Cardinality(x.labels), tid, l, "number of labels", Cardinality(x.labels), st.nl)
  /\ Expect(st.nel = Cardinality(x.elabels), tid, l, "number of edge labels", Cardinality(x.elabels), st.nel)
  /\ Expect(st.odd = <<>>, tid, l, "contradicting answers", <<>>, st.odd)
  /\ IF WellFormedText(x)
     THEN LET ix == TLCEval(IndexOf(x)) IN
          /\ Expect(ASet(st.xo) = ix, tid, l, "token index", ix, st.xo)
          /\ Expect(ASet(st.xi) = ix, tid, l, "token index (ingoing)", ix, st.xi)
     ELSE TRUE

Update == /\ IsEvent("Update")
          /\ LET g2 == TLCEval(ApplyList(g, Ev.us)) IN
             /\ g' = g2
             /\ Matches(g2, Ev.st)
          /\ UNCHANGED known

\* a refused list must contain a change that names something absent
Rejected == /\ IsEvent("Rejected")
            /\ Expect(Faulty(g, Ev.us), tid, l, "valid list refused", "accepted", Ev.what)
            /\ UNCHANGED <<g, known>>

\* these change the representation only
Represent == /\ \/ IsEvent("Optimize") \/ IsEvent("Statistics") \/ IsEvent("Reload")
             /\ Matches(g, Ev.st)
             /\ UNCHANGED <<g, known>>

\* a call failed or panicked: never allowed
Fail == /\ IsEvent("Fail")
        /\ Report(tid, l, "call failed", "success", Ev.what)
        /\ UNCHANGED <<g, known>>

TraceNext == Update \/ Rejected \/ Represent \/ Fail
TraceSpec == TraceInit /\ [][TraceNext]_vars

\* invariants of the abstract graph, evaluated in every state of every trace
TypeInv == NoDangling(g) /\ Functional(g)
\* every trace is consumed to its end
Consumed == l <= Len(Traces[tid].ev) => ENABLED TraceNext
=============================================================================
