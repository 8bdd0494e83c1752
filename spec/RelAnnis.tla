------------------------------ MODULE RelAnnis ------------------------------
(***************************************************************************)
(* What the tables of a corpus in the relANNIS format describe.            *)
(*                                                                         *)
(* T has the tables as sequences of rows (in the order of the files):      *)
(*   corpora  [id, name, enc (percent-encoded name), type, pre, post]      *)
(*   texts    [id, corpus, name, enc, val (sequence of characters)]        *)
(*   nodes    [id, text, corpus, layer, name, left, right (characters),    *)
(*             tok (index of a token), lt, rt (tokens), segidx, seg, span] *)
(*   nannos   [node, ns, name, val]      eannos  [rank, ns, name, val]     *)
(*   cannos   [corpus, ns, name, val]    comps   [id, type, layer, name]   *)
(*   ranks    [id, node, comp, parent]   files   [corpus, dir, name, ...]  *)
(* and the configuration (vis, examples, props).  Fields that can be NULL  *)
(* are <<>> or <<value>>.  inv is the value that stands for a NULL value.  *)
(* v33: version 3.3 (with the tokens of each node), else up to 3.2.        *)
(***************************************************************************)
EXTENDS AnnoGraph

RelOr(o, d) == IF o = <<>> THEN d ELSE o[1]
RelRows(s) == {s[i] : i \in DOMAIN s}
RelMax(S) == CHOOSE x \in S : \A y \in S : y <= x
RelCat(s) == FoldLeft(LAMBDA a, c : a \o c, "", s)

(***************************************************************************)
(* The tree of corpora.  Documents with an equal name are renamed.         *)
(***************************************************************************)
RelSuffix(T, i) ==
  LET c == T.corpora[i]
      k == Cardinality({j \in 1..i : T.corpora[j].type = "DOCUMENT" /\ T.corpora[j].name = c.name})
  IN IF c.type = "DOCUMENT" /\ k > 1 THEN "_duplicated_document_name_" \o ToString(k) ELSE ""
RelAbove(T, i) ==
  SetToSortSeq({j \in DOMAIN T.corpora : T.corpora[j].pre < T.corpora[i].pre /\ T.corpora[i].post < T.corpora[j].post},
               LAMBDA a, b : T.corpora[a].pre < T.corpora[b].pre)
\* the names of the nodes of all corpora by their id
RelPaths(T) ==
  LET Of(i) == FoldLeft(LAMBDA p, j : p \o T.corpora[j].enc \o RelSuffix(T, j) \o "/", "", RelAbove(T, i)) \o T.corpora[i].enc \o RelSuffix(T, i)
  IN [id \in {c.id : c \in RelRows(T.corpora)} |-> Of(CHOOSE i \in DOMAIN T.corpora : T.corpora[i].id = id)]

(***************************************************************************)
(* Tokens and what nodes cover                                             *)
(***************************************************************************)
RelTokens(T, c, x) ==
  SetToSortSeq({k \in DOMAIN T.nodes : T.nodes[k].tok # <<>> /\ T.nodes[k].corpus = c /\ T.nodes[k].text = x},
               LAMBDA a, b : T.nodes[a].tok[1] < T.nodes[b].tok[1])
RelFrom(T, k) == IF T.v33 THEN T.nodes[k].lt ELSE T.nodes[k].left
RelTo(T, k) == IF T.v33 THEN T.nodes[k].rt ELSE T.nodes[k].right
\* the tokens between the one aligned to the left and the one aligned to the right; one of them is enough
RelCovers(T, k, toks) ==
  LET L == {i \in DOMAIN toks : RelFrom(T, toks[i]) = RelFrom(T, k)}
      R == {i \in DOMAIN toks : RelTo(T, toks[i]) = RelTo(T, k)}
      l == IF L # {} THEN L ELSE R
      r == IF R # {} THEN R ELSE L
  IN IF l = {} THEN {} ELSE {toks[i] : i \in RelMax(l)..RelMax(r)}

(***************************************************************************)
(* The white space of a text between its tokens: the text is what is       *)
(* before the first token, and each token with what is after it.           *)
(***************************************************************************)
RelSpaces(T, x, toks) ==
  LET n == Len(x.val)
      Min2(a, b) == IF a < b THEN a ELSE b
      \* the end of what was consumed with token i
      End(i) == RelMax({Min2(n, T.nodes[toks[j]].right) : j \in 1..i} \cup {Min2(n, T.nodes[toks[j]].left) : j \in 1..i})
      Next(i) == IF i = Len(toks) THEN n ELSE Min2(n, T.nodes[toks[i + 1]].left)
  IN {<<toks[i], "tok-whitespace-after", RelCat(SubSeq(x.val, End(i) + 1, Next(i)))>> : i \in DOMAIN toks}
     \cup (IF toks = <<>> \/ T.nodes[toks[1]].left = 0 THEN {}
           ELSE {<<toks[1], "tok-whitespace-before", RelCat(SubSeq(x.val, 1, Min2(n, T.nodes[toks[1]].left)))>>})

(***************************************************************************)
(* The graph                                                               *)
(***************************************************************************)
RelPart == <<"PartOf", "annis", "">>
RelType(s) == CASE s = "c" -> "Coverage" [] s = "d" -> "Dominance" [] s = "p" -> "Pointing" [] s = "o" -> "Ordering"

RelGraph(T) ==
  LET C == RelRows(T.corpora)
      K == DOMAIN T.nodes
      P == TLCEval(RelPaths(T))
      NN == TLCEval([k \in K |-> P[T.nodes[k].corpus] \o "#" \o T.nodes[k].name])
      ById == TLCEval([id \in {T.nodes[k].id : k \in K} |-> CHOOSE k \in K : T.nodes[k].id = id])
      root == CHOOSE c \in C : \A d \in C : c.pre <= d.pre
      Parent(c) == LET A == {d \in C : d.pre < c.pre /\ c.post < d.post} IN CHOOSE d \in A : \A e \in A : e.pre <= d.pre
      \* texts: all of version 3.3, those with nodes before
      X == {x \in RelRows(T.texts) : T.v33 \/ \E k \in K : T.nodes[k].text = x.id}
      XN(x) == P[x.corpus] \o "#" \o x.enc
      TT == TLCEval([x \in {<<T.nodes[k].corpus, T.nodes[k].text>> : k \in K} \cup {<<x.corpus, x.id>> : x \in X} |-> RelTokens(T, x[1], x[2])])
      \* labels of nodes
      Val(o) == RelOr(o, T.inv)
      SegName(k) == IF T.segs /\ T.nodes[k].tok = <<>> THEN T.nodes[k].seg ELSE <<>>
      NoSpan(k) == SegName(k) # <<>> /\ (~T.v33 \/ T.nodes[k].span = <<>>)
      NodeLabels ==
        UNION {{<<NN[k], "annis", "node_name", NN[k]>>, <<NN[k], "annis", "node_type", "node">>}
               \cup (IF RelOr(T.nodes[k].layer, "") = "" THEN {} ELSE {<<NN[k], "annis", "layer", T.nodes[k].layer[1]>>})
               \cup (IF T.nodes[k].tok # <<>> \/ (SegName(k) # <<>> /\ ~NoSpan(k)) THEN {<<NN[k], "annis", "tok", T.nodes[k].span[1]>>} ELSE {}) : k \in K}
        \cup UNION {IF a.ns = <<"annis">> /\ a.name = "tok" THEN {}
                    ELSE LET k == ById[a.node] IN
                         {<<NN[k], RelOr(a.ns, ""), a.name, Val(a.val)>>}
                         \cup (IF NoSpan(k) /\ a.name = SegName(k)[1] /\ a.val # <<>> THEN {<<NN[k], "annis", "tok", a.val[1]>>} ELSE {}) : a \in RelRows(T.nannos)}
        \cup UNION {{<<NN[s[1]], "annis", s[2], s[3]>> : s \in RelSpaces(T, x, TT[<<x.corpus, x.id>>])} : x \in X}
      CorpusLabels ==
        UNION {{<<P[c.id], "annis", "node_name", P[c.id]>>, <<P[c.id], "annis", "node_type", "corpus">>} : c \in C}
        \cup {<<P[root.id], "annis", "relannis-version", IF T.v33 THEN "3.3" ELSE "3.2">>}
        \cup {<<P[T.corpora[i].id], "annis", "doc", T.corpora[i].name \o RelSuffix(T, i)>> :
              i \in {j \in DOMAIN T.corpora : T.corpora[j].pre + 1 = T.corpora[j].post /\ T.corpora[j] # root}}
        \cup {<<P[a.corpus], RelOr(a.ns, ""), a.name, Val(a.val)>> : a \in RelRows(T.cannos)}
      TextLabels == UNION {{<<XN(x), "annis", "node_name", XN(x)>>, <<XN(x), "annis", "node_type", "datasource">>} : x \in X}
      FN(f) == P[f.corpus] \o "/" \o f.name
      FileLabels == UNION {{<<FN(f), "annis", "node_name", FN(f)>>, <<FN(f), "annis", "node_type", "file">>, <<FN(f), "annis", "file", FN(f)>>} : f \in RelRows(T.files)}
      \* edges: the parts of the corpus
      Parts == {<<RelPart, P[c.id], P[Parent(c).id]>> : c \in C \ {root}}
               \cup {<<RelPart, XN(x), P[x.corpus]>> : x \in X}
               \cup UNION {{<<RelPart, NN[k], XN(x)>> : k \in {j \in K : T.nodes[j].corpus = x.corpus /\ T.nodes[j].text = x.id}} : x \in X}
               \cup {<<RelPart, FN(f), P[f.corpus]>> : f \in RelRows(T.files)}
      \* the order of tokens and segmentation nodes
      Chain(s, comp) == {<<comp, NN[s[i]], NN[s[i + 1]]>> : i \in 1..(Len(s) - 1)}
      SegSeq(c, x, n) == SetToSortSeq({k \in K : SegName(k) = <<n>> /\ T.nodes[k].corpus = c /\ T.nodes[k].text = x},
                                      LAMBDA a, b : T.nodes[a].segidx[1] < T.nodes[b].segidx[1])
      Orders == UNION {Chain(TT[x], <<"Ordering", "annis", "">>) : x \in DOMAIN TT}
                \cup UNION {Chain(SegSeq(x[1], x[2], n), <<"Ordering", "default_ns", n>>) : x \in DOMAIN TT, n \in {SegName(k)[1] : k \in {j \in K : SegName(j) # <<>>}}}
      \* the edges of the rank table; those of components without a type or with an unknown parent are left out
      CompOf == [id \in {m.id : m \in {c \in RelRows(T.comps) : c.type # <<>>}} |->
                   LET c == CHOOSE c \in RelRows(T.comps) : c.id = id IN <<RelType(c.type[1]), RelOr(c.layer, ""), RelOr(c.name, "")>>]
      RankNode == [id \in {q.id : q \in RelRows(T.ranks)} |-> ById[(CHOOSE q \in RelRows(T.ranks) : q.id = id).node]]
      Linked0 == {q \in RelRows(T.ranks) : q.comp \in DOMAIN CompOf /\ q.parent # <<>> /\ q.parent[1] \in DOMAIN RankNode}
      EdgeOf(q) == <<CompOf[q.comp], NN[RankNode[q.parent[1]]], NN[RankNode[q.id]]>>
      Ranked == TLCEval({EdgeOf(q) : q \in Linked0})
      ELabels == UNION {{LET e == EdgeOf(q) IN <<e[1], e[2], e[3], RelOr(a.ns, ""), a.name, Val(a.val)>> : a \in {b \in RelRows(T.eannos) : b.rank = q.id}} : q \in Linked0}
      \* nodes cover their tokens: in the component they are the root of, or in an own one if there are other coverage edges
      Covering == TLCEval({<<e[2], e[3]>> : e \in {d \in Ranked : d[1][1] = "Coverage"}})
      RootIn(k) == {i \in DOMAIN T.ranks : T.ranks[i].parent = <<>> /\ ById[T.ranks[i].node] = k /\ T.ranks[i].comp \in DOMAIN CompOf /\ CompOf[T.ranks[i].comp][1] = "Coverage"}
      AutoComp(k) == IF \E e \in Covering : e[1] = NN[k] THEN <<"Coverage", "annis", "autogenerated-coverage">>
                     ELSE IF RootIn(k) = {} THEN <<"Coverage", "", "">> ELSE CompOf[T.ranks[RelMax(RootIn(k))].comp]
      Auto == UNION {{<<AutoComp(k), NN[k], NN[t]>> : t \in {u \in RelCovers(T, k, TT[<<T.nodes[k].corpus, T.nodes[k].text>>]) : <<NN[k], NN[u]>> \notin Covering}} :
                     k \in {j \in K : T.nodes[j].tok = <<>>}}
      Labels == NodeLabels \cup CorpusLabels \cup TextLabels \cup FileLabels
  IN [nodes |-> {m[1] : m \in Labels}, labels |-> Labels, edges |-> Parts \cup Orders \cup Ranked \cup Auto, elabels |-> ELabels]

RelFiles(T) == LET P == RelPaths(T) IN {<<P[f.corpus] \o "/" \o f.name, f.content>> : f \in RelRows(T.files)}

(***************************************************************************)
(* The configuration                                                       *)
(***************************************************************************)
RelRule(e, m, v, d, vis) == [layer |-> m, element |-> e, vis |-> v, display |-> d, visibility |-> vis, map |-> <<>>]
RelDefaults == <<
  [o |-> 101, d |-> TRUE, r |-> RelRule(<<"node">>, <<"tiger">>, "tree", "tree", "hidden")],
  [o |-> 102, d |-> TRUE, r |-> RelRule(<<"node">>, <<"exmaralda">>, "grid", "exmaralda", "hidden")],
  [o |-> 103, d |-> TRUE, r |-> RelRule(<<"node">>, <<"mmax">>, "grid", "mmax", "hidden")],
  [o |-> 104, d |-> TRUE, r |-> RelRule(<<"edge">>, <<"mmax">>, "discourse", "coref", "hidden")],
  [o |-> 105, d |-> TRUE, r |-> RelRule(<<"node">>, <<"urml">>, "grid", "urml", "hidden")]>>
RelKwic == RelRule(<<>>, <<>>, "kwic", "kwic", "permanent")

\* a row of the table: removes the default rule it is equal to, or is added and replaces the default rules for its layer
RelStep(rules, x) ==
  LET e == IF x.element \in {<<"node">>, <<"edge">>} THEN x.element ELSE <<>>
      Equal(q) == q.d /\ q.r.display = x.display /\ q.r.element = e /\ q.r.layer = x.layer /\ q.r.vis = x.vis
      Replaced(q) == q.d /\ q.r.layer # <<>> /\ q.r.layer = x.layer
      map == x.map
  IN IF x.visibility = "removed" THEN SelectSeq(rules, LAMBDA q : ~Equal(q))
     ELSE SelectSeq(rules, LAMBDA q : ~Replaced(q))
          \o <<[o |-> x.order, d |-> FALSE, r |-> [layer |-> x.layer, element |-> e, vis |-> x.vis, display |-> x.display, visibility |-> x.visibility, map |-> map]]>>
\* (the first default rule comes before all others)
RelVis(T) ==
  LET all == FoldLeft(RelStep, <<[o |-> 0, d |-> TRUE, r |-> RelKwic]>> \o RelDefaults, T.vis)
      RelEarlier(a, b) == IF all[a].r = RelKwic /\ all[a].d THEN a # b ELSE IF all[b].r = RelKwic /\ all[b].d THEN FALSE ELSE all[a].o < all[b].o
      order == SetToSortSeq(DOMAIN all, RelEarlier)
  IN [i \in DOMAIN order |-> all[order[i]].r]

\* properties: the last value counts; values which are no numbers are ignored
RelProp(T, key, ok(_)) == LET I == {i \in DOMAIN T.props : T.props[i].k = key /\ ok(T.props[i])} IN IF I = {} THEN <<>> ELSE <<T.props[RelMax(I)]>>
RelNum(T, key) == LET p == RelProp(T, key, LAMBDA q : q.n # <<>>) IN IF p = <<>> THEN <<>> ELSE p[1].n
RelText(T, key) == LET p == RelProp(T, key, LAMBDA q : q.v # "") IN IF p = <<>> THEN <<>> ELSE <<p[1].v>>
RelList(T, key) == LET p == RelProp(T, key, LAMBDA q : q.v # "") IN IF p = <<>> THEN <<>> ELSE p[1].l
\* (the number of steps of zero has no meaning)
RelSizes(T) ==
  LET s == LET p == RelProp(T, "context-steps", LAMBDA q : q.n # <<>> /\ q.n[1] > 0) IN IF p = <<>> THEN <<>> ELSE p[1].n
      m == RelOr(RelNum(T, "max-context"), RelOr(s, 0))
  IN IF s = <<>> THEN <<0, 1, 2, 5, 10>> ELSE [i \in 1..(m \div s[1]) |-> i * s[1]]
RelStrategy(T) ==
  LET ns == {i \in DOMAIN T.props : T.props[i].k = "virtual_tokenization_from_namespace" /\ T.props[i].v \in {"true", "TRUE"}}
      mp == {i \in DOMAIN T.props : T.props[i].k = "virtual_tokenization_mapping" /\ T.props[i].v # ""}
      last == IF ns \cup mp = {} THEN 0 ELSE RelMax(ns \cup mp)
  IN IF last = 0 THEN [strategy |-> "Explicit", map |-> {}]
     ELSE IF last \in ns THEN [strategy |-> "ImplicitFromNamespace", map |-> {}]
     ELSE [strategy |-> "ImplicitFromMapping", map |-> RelRows(T.props[last].l)]
RelSize(T, g) ==
  LET seg == RelText(T, "default-base-text-segmentation")
      E == {e \in g.edges : e[1][1] = "Ordering" /\ e[1][3] = seg[1]}
  IN IF seg = <<>> THEN <<"tokens", "", Cardinality(Tokens(g))>>
     ELSE IF E = {} THEN <<>> ELSE <<"segmentation", seg[1], Cardinality({e[2] : e \in E} \cup {e[3] : e \in E})>>
=============================================================================
