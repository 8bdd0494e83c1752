----------------------------- MODULE AnnoGraph -----------------------------
(***************************************************************************)
(* The abstract state of an annotation graph and the meaning of the atomic *)
(* changes of an update list.                                              *)
(*                                                                         *)
(* A graph is a record                                                     *)
(*   labels : set of <<node, ns, name, value>>  -- every node has the      *)
(*            labels annis::node_name (its name) and annis::node_type      *)
(*   edges  : set of <<comp, source, target>>                              *)
(*   elabels: set of <<comp, source, target, ns, name, value>>             *)
(* where comp = <<ctype, layer, name>>.  Nodes are identified by name.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, TLCExt, SequencesExt

CTypes == {"Coverage","Dominance","Pointing","Ordering","LeftToken","RightToken","PartOf"}

EmptyGraph == [nodes |-> {}, labels |-> {}, edges |-> {}, elabels |-> {}]

SeqSet(s) == {s[i] : i \in DOMAIN s}

(***************************************************************************)
(* One operator per kind of change.  Each is total: a change that names    *)
(* something absent leaves the graph as it is.                             *)
(***************************************************************************)
AddNode(g, n, ty) ==
  IF n \in g.nodes THEN g
  ELSE [g EXCEPT !.nodes = @ \cup {n},
                 !.labels = @ \cup {<<n,"annis","node_name",n>>, <<n,"annis","node_type",ty>>}]

DeleteNode(g, n) ==
  IF n \notin g.nodes THEN g
  ELSE [nodes   |-> g.nodes \ {n},
        labels  |-> {l \in g.labels : l[1] # n},
        edges   |-> {e \in g.edges : e[2] # n /\ e[3] # n},
        elabels |-> {e \in g.elabels : e[2] # n /\ e[3] # n}]

AddNodeLabel(g, n, ns, name, v) ==
  IF n \notin g.nodes THEN g
  ELSE [g EXCEPT !.labels = {l \in @ : ~(l[1] = n /\ l[2] = ns /\ l[3] = name)} \cup {<<n,ns,name,v>>}]

DeleteNodeLabel(g, n, ns, name) ==
  [g EXCEPT !.labels = {l \in @ : ~(l[1] = n /\ l[2] = ns /\ l[3] = name)}]

\* self loops are not representable in a component and are ignored
AddEdge(g, s, t, c) ==
  IF s \in g.nodes /\ t \in g.nodes /\ s # t /\ c[1] \in CTypes
  THEN [g EXCEPT !.edges = @ \cup {<<c,s,t>>}]
  ELSE g

DeleteEdge(g, s, t, c) ==
  [g EXCEPT !.edges = @ \ {<<c,s,t>>},
            !.elabels = {e \in @ : ~(e[1] = c /\ e[2] = s /\ e[3] = t)}]

AddEdgeLabel(g, s, t, c, ns, name, v) ==
  IF <<c,s,t>> \in g.edges
  THEN [g EXCEPT !.elabels = {e \in @ : ~(e[1] = c /\ e[2] = s /\ e[3] = t /\ e[4] = ns /\ e[5] = name)}
                             \cup {<<c,s,t,ns,name,v>>}]
  ELSE g

DeleteEdgeLabel(g, s, t, c, ns, name) ==
  [g EXCEPT !.elabels = {e \in @ : ~(e[1] = c /\ e[2] = s /\ e[3] = t /\ e[4] = ns /\ e[5] = name)}]

(***************************************************************************)
(* Many new nodes pre<from> .. pre<to> at once, each with a label whose    *)
(* values alternate, connected to a k-ary tree with labelled edges.        *)
(***************************************************************************)
Bulk(g, pre, from, to, ty, ns, name, vals, c, k) ==
  LET N(i) == pre \o ToString(i)
      V(i) == vals[(i % Len(vals)) + 1]
      P(i) == N(from + ((i - from - 1) \div k))
      I == from..to
  IN [nodes   |-> g.nodes \cup {N(i) : i \in I},
      labels  |-> g.labels \cup {<<N(i),"annis","node_name",N(i)>> : i \in I} \cup {<<N(i),"annis","node_type",ty>> : i \in I}
                           \cup {<<N(i),ns,name,V(i)>> : i \in I},
      edges   |-> g.edges \cup {<<c,P(i),N(i)>> : i \in (from+1)..to},
      elabels |-> g.elabels \cup {<<c,P(i),N(i),ns,name,V(i)>> : i \in (from+1)..to}]

(* A change is encoded as a tuple <<kind, args...>>.                       *)
Apply1(g, u) ==
  CASE u[1] = "AN"  -> AddNode(g, u[2], u[3])
    [] u[1] = "DN"  -> DeleteNode(g, u[2])
    [] u[1] = "AL"  -> AddNodeLabel(g, u[2], u[3], u[4], u[5])
    [] u[1] = "DL"  -> DeleteNodeLabel(g, u[2], u[3], u[4])
    [] u[1] = "AE"  -> AddEdge(g, u[2], u[3], u[4])
    [] u[1] = "DE"  -> DeleteEdge(g, u[2], u[3], u[4])
    [] u[1] = "AEL" -> AddEdgeLabel(g, u[2], u[3], u[4], u[5], u[6], u[7])
    [] u[1] = "DEL" -> DeleteEdgeLabel(g, u[2], u[3], u[4], u[5], u[6])
    [] u[1] = "BULK" -> Bulk(g, u[2], u[3], u[4], u[5], u[6], u[7], u[8], u[9], u[10])

ApplyList(g, us) == FoldLeft(LAMBDA x, u : Apply1(x, u), g, us)

(***************************************************************************)
(* A list may be refused only if one of its changes deletes (or attaches   *)
(* an edge to) a node that does not exist when the change is reached.      *)
(***************************************************************************)
FaultyChange(g, u) ==
  \/ u[1] = "DN" /\ u[2] \notin g.nodes
  \/ u[1] \in {"DE","AE"} /\ (u[2] \notin g.nodes \/ u[3] \notin g.nodes)
Faulty(g, us) ==
  FoldLeft(LAMBDA a, u : IF a.f THEN a ELSE [f |-> FaultyChange(a.g, u), g |-> Apply1(a.g, u)],
           [f |-> FALSE, g |-> g], us).f

(***************************************************************************)
(* Structural invariants of every reachable graph                          *)
(***************************************************************************)
NoDangling(g) ==
  /\ \A e \in g.edges : e[2] \in g.nodes /\ e[3] \in g.nodes
  /\ \A e \in g.elabels : <<e[1],e[2],e[3]>> \in g.edges
  /\ \A l \in g.labels : l[1] \in g.nodes
Functional(g) ==
  /\ Cardinality({<<l[1],l[2],l[3]>> : l \in g.labels}) = Cardinality(g.labels)
  /\ Cardinality({<<l[1],l[2],l[3],l[4],l[5]>> : l \in g.elabels}) = Cardinality(g.elabels)

(***************************************************************************)
(* Derived relations over tokens                                           *)
(***************************************************************************)
IndexComps == { <<"LeftToken","annis","">>, <<"RightToken","annis","">>,
                <<"Coverage","annis","inherited-coverage">> }
BaseOrder  == <<"Ordering","annis","">>

HasLabel(g, n, ns, name) == \E l \in g.labels : l[1] = n /\ l[2] = ns /\ l[3] = name
TokLabelled(g) == {l[1] : l \in {k \in g.labels : k[2] = "annis" /\ k[3] = "tok"}}
CovEdges(g) == {<<e[2],e[3]>> : e \in {x \in g.edges : x[1][1] = "Coverage" /\ x[1] \notin IndexComps}}
DomEdges(g) == {<<e[2],e[3]>> : e \in {x \in g.edges : x[1][1] = "Dominance"}}
OrdEdges(g, c) == {<<e[2],e[3]>> : e \in {x \in g.edges : x[1] = c}}

\* nodes reachable from the set S by one or more R-steps
RECURSIVE ReachFrom(_,_,_)
ReachFrom(R, frontier, seen) ==
  LET nxt == {p[2] : p \in {q \in R : q[1] \in frontier}} \ seen
  IN IF nxt = {} THEN seen ELSE ReachFrom(R, nxt, seen \cup nxt)
ReachSet(R, n) == ReachFrom(R, {n}, {})

Tokens(g) == TokLabelled(g) \ {p[1] : p \in CovEdges(g)}

\* tokens covered by a node, directly or inherited
Covered(g, R, T, n) == (ReachSet(R, n) \cap T) \ {n}
TextRel(g) == CovEdges(g) \cup DomEdges(g)

\* first/last token of a set along the ordering relation (unique if the set lies in one chain)
Before(O, a, b) == b \in ReachSet(O, a)
IsChain(O) == /\ \A p, q \in O : p[1] = q[1] => p[2] = q[2]
              /\ \A p, q \in O : p[2] = q[2] => p[1] = q[1]
              /\ \A p \in O : p[1] \notin ReachSet(O, p[1])

(***************************************************************************)
(* The condition under which the derived relations have one meaning: the   *)
(* order is a set of chains, text coverage is acyclic, tokens dominate and *)
(* cover nothing, and everything a node covers lies in one chain.          *)
(***************************************************************************)
WellFormedText(g) ==
  LET O == TLCEval(OrdEdges(g, BaseOrder))  R == TLCEval(TextRel(g))  T == TLCEval(Tokens(g))
  IN /\ IsChain(O)
     /\ \A p \in R : p[1] \notin T
     /\ \A p \in R : p[1] \notin ReachSet(R, p[1])
     /\ \A n \in {p[1] : p \in R} :
           LET cov == TLCEval(Covered(g,R,T,n)) IN
           \A a, b \in cov : a = b \/ Before(O,a,b) \/ Before(O,b,a)
     /\ ~ \E e \in g.edges : e[1] \in IndexComps

IndexOf(g) ==
  LET O == TLCEval(OrdEdges(g, BaseOrder))  R == TLCEval(TextRel(g))  T == TLCEval(Tokens(g))
      Src == {p[1] : p \in R}
      C == TLCEval([n \in Src |-> Covered(g,R,T,n)])
      Dir == CovEdges(g)
      N2 == {n \in Src : C[n] # {}}
      FirstTok(n) == CHOOSE t \in C[n] : \A u \in C[n] \ {t} : Before(O,t,u)
      LastTok(n)  == CHOOSE t \in C[n] : \A u \in C[n] \ {t} : Before(O,u,t)
  IN   UNION { {<<<<"Coverage","annis","inherited-coverage">>, n, t>> : t \in {x \in C[n] : <<n,x>> \notin Dir}} : n \in N2 }
  \cup { <<<<"LeftToken","annis","">>, n, FirstTok(n)>> : n \in N2 }
  \cup { <<<<"RightToken","annis","">>, n, LastTok(n)>> : n \in N2 }
=============================================================================
