------------------------------ MODULE Results ------------------------------
(***************************************************************************)
(* What a corpus storage answers besides the set of matches: how a match   *)
(* is written, in which order matches are listed, how they are counted,    *)
(* which part of the graph is extracted, what the listings contain.        *)
(*                                                                         *)
(* A corpus is a record [g: graph, x: context of Aql, rk: rank of each     *)
(* node in the text order, known: components ever mentioned].              *)
(***************************************************************************)
EXTENDS Aql, Integers, FiniteSetsExt

(***************************************************************************)
(* Comparing strings (sequences of code points) and paths                  *)
(***************************************************************************)
CmpNum(a, b) == IF a < b THEN -1 ELSE IF a > b THEN 1 ELSE 0
CmpSeq(s, t, C(_,_)) ==
  LET D == {i \in 1..(IF Len(s) < Len(t) THEN Len(s) ELSE Len(t)) : s[i] # t[i]}
  IN IF D # {} THEN C(s[Min(D)], t[Min(D)]) ELSE CmpNum(Len(s), Len(t))
CmpText(s, t) == CmpSeq(s, t, CmpNum)
CmpPath(p, q) == CmpSeq(p, q, CmpText)

Slash == 47
Hash == 35
LastHash(s) == LET H == {i \in DOMAIN s : s[i] = Hash} IN IF H = {} THEN 0 ELSE Max(H)
LocalName(s) == IF LastHash(s) = 0 THEN <<>> ELSE SubSeq(s, LastHash(s) + 1, Len(s))
Close(a) == IF a.c = <<>> THEN a.d ELSE Append(a.d, a.c)
DocPath(s) ==
  LET p == IF LastHash(s) = 0 THEN s ELSE SubSeq(s, 1, LastHash(s) - 1)
  IN Close(FoldLeft(LAMBDA a, ch : IF ch = Slash THEN [d |-> Close(a), c |-> <<>>] ELSE [a EXCEPT !.c = Append(@, ch)],
                    [d |-> <<>>, c |-> <<>>], p))

(***************************************************************************)
(* The text order of nodes: document path, nodes without text, position of *)
(* the first covered token (the texts of a document one after another),    *)
(* name.                                                                   *)
(***************************************************************************)
OrdPaths(x) == IF BaseOrd \in DOMAIN x.paths THEN x.paths[BaseOrd] ELSE [n \in x.nodes |-> {<<n, 0>>}]
FirstOfText(x, t) ==
  LET S == {s \in x.nodes : \E d \in OrdPaths(x)[s] : d[1] = t /\ d[2] >= 1} \cup {t}
  IN CHOOSE s \in S : ~\E u \in S : u # s /\ \E d \in OrdPaths(x)[u] : d[1] = s /\ d[2] >= 1

CmpNode(x, cp, a, b) ==
  LET pc == CmpPath(DocPath(cp[a]), DocPath(cp[b]))
      la == x.left[a]  lb == x.left[b]
      ta == CHOOSE t \in la : TRUE  tb == CHOOSE t \in lb : TRUE
      names == CmpText(LocalName(cp[a]), LocalName(cp[b]))
  IN IF a = b THEN 0
     ELSE IF pc # 0 THEN pc
     ELSE IF la = {} /\ lb # {} THEN -1
     ELSE IF la # {} /\ lb = {} THEN 1
     ELSE IF la # {} /\ la # lb THEN
            IF \E d \in OrdPaths(x)[ta] : d[1] = tb /\ d[2] >= 1 THEN -1
            ELSE IF \E d \in OrdPaths(x)[tb] : d[1] = ta /\ d[2] >= 1 THEN 1
            ELSE CmpText(LocalName(cp[FirstOfText(x, ta)]), LocalName(cp[FirstOfText(x, tb)]))
     ELSE names

NodeRank(x, cp) ==
  LET s == SetToSortSeq(x.nodes, LAMBDA a, b : CmpNode(x, cp, a, b) = -1)
  IN [n \in x.nodes |-> CHOOSE i \in DOMAIN s : s[i] = n]

CmpElem(rk, cp, p, q) ==
  IF p[1] # q[1] THEN CmpNum(rk[p[1]], rk[q[1]])
  ELSE IF p[3] # q[3] THEN CmpText(cp[p[3]], cp[q[3]])
  ELSE CmpText(cp[p[2]], cp[q[2]])
CmpMatch(rk, cp, m, k) ==
  LET D == {i \in 1..(IF Len(m) < Len(k) THEN Len(m) ELSE Len(k)) : m[i] # k[i]}
  IN IF D # {} THEN CmpElem(rk, cp, m[Min(D)], k[Min(D)])
     ELSE CmpNum(Len(k), Len(m))

(***************************************************************************)
(* The text order of old queries compares only the last part of the        *)
(* document path and uses the order of the locale unless the corpus comes  *)
(* from relANNIS 3.3.  srt[n] has the ranks of the parts of the name of n: *)
(* [len |-> length of the path, doc, name |-> locale, docd, named |->      *)
(* code points].  0 if the order of two different nodes is not defined.    *)
(***************************************************************************)
PlainOrder(x) == \E l \in x.labels : l[2] = "annis" /\ l[3] = "relannis-version" /\ l[4] = "3.3"
CmpOldNode(x, srt, a, b) ==
  LET plain == PlainOrder(x)
      Doc(n) == IF plain THEN srt[n].docd ELSE srt[n].doc
      Nm(n) == IF plain THEN srt[n].named ELSE srt[n].name
      pc == IF Doc(a) # Doc(b) /\ srt[a].len > 0 /\ srt[b].len > 0 THEN CmpNum(Doc(a), Doc(b)) ELSE CmpNum(srt[a].len, srt[b].len)
      la == x.left[a]  lb == x.left[b]
      ta == CHOOSE t \in la : TRUE  tb == CHOOSE t \in lb : TRUE
      names == CmpNum(Nm(a), Nm(b))
  IN IF a = b THEN 0
     ELSE IF pc # 0 THEN pc
     ELSE IF la = {} /\ lb # {} THEN -1
     ELSE IF la # {} /\ lb = {} THEN 1
     ELSE IF la # {} /\ la # lb THEN
            IF \E d \in OrdPaths(x)[ta] : d[1] = tb /\ d[2] >= 1 THEN -1
            ELSE IF \E d \in OrdPaths(x)[tb] : d[1] = ta /\ d[2] >= 1 THEN 1
            ELSE CmpNum(Nm(FirstOfText(x, ta)), Nm(FirstOfText(x, tb)))
     ELSE names
CmpOldMatch(x, srt, cp, m, k) ==
  LET D == {i \in 1..(IF Len(m) < Len(k) THEN Len(m) ELSE Len(k)) : m[i] # k[i]}
      p == m[Min(D)]  q == k[Min(D)]
  IN IF D = {} THEN CmpNum(Len(k), Len(m))
     ELSE IF p[1] # q[1] THEN CmpOldNode(x, srt, p[1], q[1])
     ELSE IF p[3] # q[3] THEN CmpText(cp[p[3]], cp[q[3]])
     ELSE CmpText(cp[p[2]], cp[q[2]])

(***************************************************************************)
(* How a match is written; enc encodes the names of labels                 *)
(***************************************************************************)
ElemText(e, enc) ==
  IF e[2] = "annis" /\ e[3] = "node_type" THEN e[1]
  ELSE (IF e[2] = "" THEN "" ELSE enc[e[2]] \o "::") \o enc[e[3]] \o "::" \o e[1]
MatchText(m, enc) ==
  FoldLeft(LAMBDA a, i : IF i = 1 THEN ElemText(m[i], enc) ELSE a \o " " \o ElemText(m[i], enc), "", [i \in DOMAIN m |-> i])

\* in old queries also the node names are encoded anew
OldMatchText(m, enc, nenc) ==
  MatchText([i \in DOMAIN m |-> <<nenc[m[i][1]], m[i][2], m[i][3]>>], enc)

SortedMatches(M, rk, cp) == SetToSortSeq(M, LAMBDA m, k : CmpMatch(rk, cp, m, k) = -1)
SortedNames(cs, cp) == SetToSortSeq(SeqSet(cs), LAMBDA a, b : CmpText(cp[a], cp[b]) = -1)
Flat(ss) == FoldLeft(LAMBDA a, s : a \o s, <<>>, ss)
Page(s, o, l) == IF o >= Len(s) \/ l = 0 THEN <<>>
                 ELSE SubSeq(s, o + 1, IF l < 0 \/ l > Len(s) - o THEN Len(s) ELSE o + l)

(***************************************************************************)
(* Documents the first nodes of matches lie in                             *)
(***************************************************************************)
PartComps(x) == {c \in DOMAIN x.paths : c[1] = "PartOf"}
DocsOf(x, firsts) ==
  {l[1] : l \in {k \in x.labels : k[2] = "annis" /\ k[3] = "doc"
                   /\ \E c \in PartComps(x) : \E n \in firsts : \E d \in x.paths[c][n] : d[1] = k[1] /\ d[2] >= 1}}

(***************************************************************************)
(* Frequencies                                                             *)
(***************************************************************************)
VarsOf(f) == {n[3] : n \in UNION {NodesOf(C) : C \in Dnf(f)}}
\* the columns of a row are the entries whose variable occurs in the query
Columns(f, def) == SelectSeq(def, LAMBDA d : d[1] \in VarsOf(f))
ColumnValues(x, C, m, def) ==
  LET At(v) == {i \in DOMAIN Required(C) : Required(C)[i][3] = v}
      V == UNION {{l[4] : l \in {k \in x.labels : k[1] = n /\ k[3] = d[3] /\ (d[2] = "*" \/ k[2] = d[2])}} :
                    d \in {def}, n \in {m[Min(At(def[1]))][1]}}
  IN IF At(def[1]) = {} \/ V = {} THEN {""} ELSE V
RowsOf(x, C, m, cols) ==
  FoldLeft(LAMBDA S, i : {Append(r, v) : r \in S, v \in ColumnValues(x, C, m, cols[i])}, {<<>>}, [i \in DOMAIN cols |-> i])

(***************************************************************************)
(* Extracted parts of the graph                                            *)
(***************************************************************************)
NotExtracted(c) == c[1] \in {"LeftToken","RightToken"} \/ (c[1] = "Coverage" /\ c[2] = "annis" /\ c[3] # "")
GapComp == <<"Ordering","annis","datasource-gap">>
\* successive tokens of the part which are not adjacent
Gaps(x, N) ==
  LET T == N \cap x.tok
      P == OrdPaths(x)
  IN UNION {LET before == {<<s, d[2]>> : s \in T, d \in {y \in UNION {P[s2] : s2 \in T} : y[1] = t /\ y[2] >= 1}}
                real == {b \in before : \E y \in P[b[1]] : y[1] = t /\ y[2] = b[2]}
            IN IF real = {} THEN {}
               ELSE LET near == CHOOSE b \in real : \A o \in real : b[2] <= o[2]
                    IN IF near[2] > 1 THEN {<<GapComp, near[1], t>>} ELSE {}
            : t \in T}

Part(g, x, N, types) ==
  LET E == {e \in g.edges : e[2] \in N /\ e[3] \in N /\ ~NotExtracted(e[1]) /\ (types = "" \/ e[1][1] = types)}
  IN [ labels  |-> {l \in g.labels : l[1] \in N},
       edges   |-> E \cup (IF types \in {"", "Ordering"} THEN Gaps(x, N) ELSE {}),
       elabels |-> {e \in g.elabels : <<e[1], e[2], e[3]>> \in E} ]

PathsIn(x, c) == IF c \in DOMAIN x.paths THEN x.paths[c] ELSE [n \in x.nodes |-> {<<n, 0>>}]
Dist(P, a, b) == {d[2] : d \in {y \in P[a] : y[1] = b}}
NotAfterIn(P, a, b) == Dist(P, a, b) # {}
FirstIn(P, S) == CHOOSE s \in S : \A u \in S : NotAfterIn(P, s, u)
LastIn(P, S)  == CHOOSE s \in S : \A u \in S : NotAfterIn(P, u, s)
\* as far as possible, at most k steps
Back(x, P, n, k) == LET S == {s \in x.nodes : \E d \in Dist(P, s, n) : d <= k} IN FirstIn(P, S)
Forth(x, P, n, k) == LET S == {s \in x.nodes : \E d \in Dist(P, n, s) : d <= k} IN LastIn(P, S)

SegNodes(x, T, Q) == {s \in x.nodes \ x.tok : x.text[s] \cap T # {} /\ (\E y \in Q[s] : y[2] = 1 \/ \E u \in x.nodes : \E z \in Q[u] : z[1] = s /\ z[2] = 1)}

\* the tokens between the left and the right context of a node
Region(x, n, l, r, seg) ==
  LET T == x.text[n]
      P == OrdPaths(x)
      a == FirstIn(P, T)  b == LastIn(P, T)
      Q == PathsIn(x, SegOrd(seg))
      S == SegNodes(x, T, Q)
      sl == x.left[Back(x, Q, FirstIn(Q, S), l)]
      sr == x.right[Forth(x, Q, LastIn(Q, S), r)]
      from == IF seg = "" THEN Back(x, P, a, l) ELSE IF S = {} THEN a ELSE FirstIn(P, sl \cup {a})
      to   == IF seg = "" THEN Forth(x, P, b, r) ELSE IF S = {} THEN b ELSE LastIn(P, sr \cup {b})
  IN IF T = {} THEN {}
     ELSE {t \in x.tok : NotAfterIn(P, from, t) /\ NotAfterIn(P, t, to)}

PartAncestors(x, N) == UNION {{d[1] : d \in {y \in PathsIn(x, PartComp)[n] : y[2] >= 1}} : n \in N}
ContextNodes(x, ids, l, r, seg) ==
  LET T == UNION {Region(x, n, l, r, seg) : n \in ids}
  IN ids \cup T \cup {m \in x.nodes : x.text[m] \cap T # {}} \cup PartAncestors(x, ids)

TypeOf(x, n) == {l[4] : l \in {k \in x.labels : k[1] = n /\ k[2] = "annis" /\ k[3] = "node_type"}}
BelowNodes(x, ids) ==
  {n \in x.nodes : TypeOf(x, n) \in {{"node"}, {"datasource"}} /\ \E d \in PathsIn(x, PartComp)[n] : d[1] \in ids /\ d[2] >= 1}
StructureNodes(x) == {n \in x.nodes : TypeOf(x, n) = {"corpus"}}

(***************************************************************************)
(* Listings                                                                *)
(***************************************************************************)
DefaultComps == {<<"Coverage","annis","">>, <<"Ordering","annis","">>, <<"LeftToken","annis","">>, <<"RightToken","annis","">>,
                 <<"PartOf","annis","">>, <<"Coverage","annis","inherited-coverage">>}
\* labels: tuples whose last three elements are namespace, name and value
Keys(L) == {<<l[Len(l) - 2], l[Len(l) - 1]>> : l \in L}
Values(L) == {<<l[Len(l) - 2], l[Len(l) - 1], l[Len(l)]>> : l \in L}
HowOften(L, v) == Cardinality({l \in L : l[Len(l) - 2] = v[1] /\ l[Len(l) - 1] = v[2] /\ l[Len(l)] = v[3]})
=============================================================================
