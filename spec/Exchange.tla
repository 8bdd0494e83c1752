------------------------------ MODULE Exchange ------------------------------
(***************************************************************************)
(* A corpus as it is exported and imported: its graph (AnnoGraph), the     *)
(* files that belong to it, and its configuration with the corpus size.    *)
(*   c = [g, files : set of <<path, content>>, cfg : text, size]           *)
(* size is <<>> (unknown) or <<unit, segmentation, number>>.               *)
(***************************************************************************)
EXTENDS AnnoGraph

LabelsOf(g, n, ns, name) == {l[4] : l \in {k \in g.labels : k[1] = n /\ k[2] = ns /\ k[3] = name}}
\* the nodes that stand for a file, with the path they refer to
Refs(g) == {<<l[1], l[4]>> : l \in {k \in g.labels : k[2] = "annis" /\ k[3] = "file" /\ LabelsOf(g, k[1], "annis", "node_type") = {"file"}}}

\* the contents of the files linked by nodes
Linked(c) == {<<p[1][1], p[2][2]>> : p \in {q \in Refs(c.g) \X c.files : q[1][2] = q[2][1]}}

(***************************************************************************)
(* Importing copies the linked files that exist, names them after their    *)
(* node and lets the node refer to the copy.                               *)
(***************************************************************************)
SegSize(g, s) ==
  LET E == {e \in g.edges : e[1][1] = "Ordering" /\ e[1][3] = s}
  IN IF s = "" \/ E = {} THEN <<>> ELSE <<"segmentation", s, Cardinality({e[2] : e \in E} \cup {e[3] : e \in E})>>
\* the unit is kept, the number is counted
NewSize(g, size, base) ==
  IF size # <<>> THEN IF size[1] = "tokens" THEN <<"tokens", "", Cardinality(Tokens(g))>> ELSE SegSize(g, size[2])
  ELSE IF base # <<>> THEN SegSize(g, base[1])
  ELSE <<"tokens", "", Cardinality(Tokens(g))>>

ImportG(c) ==
  LET L == Linked(c)
      moved == {x[1] : x \in L}
  IN [c EXCEPT !.g.labels = {l \in @ : ~(l[1] \in moved /\ l[2] = "annis" /\ l[3] = "file")} \cup {<<n, "annis", "file", n>> : n \in moved},
               !.files = L]
Import(c, base) == LET i == ImportG(c) IN [i EXCEPT !.size = NewSize(c.g, @, base)]
\* what is in the exported files: the linked files are stored under the names of their nodes
Export(c) == [c EXCEPT !.files = Linked(c)]
Trip(c, base) == Import(Export(c), base)
=============================================================================
