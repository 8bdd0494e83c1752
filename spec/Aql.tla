-------------------------------- MODULE Aql --------------------------------
(***************************************************************************)
(* What an AQL query means on an annotation graph.                         *)
(*                                                                         *)
(* A query is a formula over three kinds of leaves:                        *)
(*   <<"N", pos, var, spec, optional>>      a node description             *)
(*   <<"B", var, op, var, negated>>         a relation of two nodes        *)
(*   <<"U", var, min, max>>                 :arity=                        *)
(* combined by <<"and", f...>> and <<"or", f...>>; pos is the position of  *)
(* the node description in the text.                                       *)
(*                                                                         *)
(* spec is one of <<"node">>, <<"tok">>, <<"tokv", kind, val>>             *)
(* (tok="..."), <<"val", kind, val>> ("..."), <<"anno", ns, name, kind,    *)
(* val>> with ns "*" for any namespace; kind is any/eq/ne/re/nre.          *)
(*                                                                         *)
(* A match is <<node, ns, name>>: a node together with the label by which  *)
(* it was found.                                                           *)
(***************************************************************************)
EXTENDS AnnoGraph, Storage, Regex

(***************************************************************************)
(* Everything the relations need from a graph, computed once per graph.    *)
(***************************************************************************)
Adj(N, E) == [n \in N |-> {e[2] : e \in {x \in E : x[1] = n}}]
PathsOf(N, E) == LET a == Adj(N, E) IN [n \in N |-> PathLengths(a, n)]
CompsOf(g) == {e[1] : e \in g.edges}

Context(g) ==
  LET ix == TLCEval(IndexOf(g))
      T  == TLCEval(Tokens(g))
      L(n) == {e[3] : e \in {x \in ix : x[1][1] = "LeftToken" /\ x[2] = n}}
      R(n) == {e[3] : e \in {x \in ix : x[1][1] = "RightToken" /\ x[2] = n}}
      Rl == TLCEval(TextRel(g))
  IN [ nodes |-> g.nodes,
       labels |-> TLCEval(g.labels),
       elabels |-> TLCEval(g.elabels),
       tok   |-> T,
       left  |-> TLCEval([n \in g.nodes |-> IF n \in T THEN {n} ELSE L(n)]),
       right |-> TLCEval([n \in g.nodes |-> IF n \in T THEN {n} ELSE R(n)]),
       \* the tokens a node stands for
       text  |-> TLCEval([n \in g.nodes |-> IF n \in T THEN {n} ELSE ReachSet(Rl, n) \cap T]),
       paths |-> TLCEval([c \in {x \in CompsOf(g) : x[1] \in {"Ordering","Dominance","Pointing","PartOf"}} |-> PathsOf(g.nodes, OrdEdges(g, c))]),
       kids  |-> TLCEval([n \in g.nodes |-> {e[3] : e \in {x \in g.edges : x[1][1] \in {"Dominance","Pointing"} /\ x[2] = n}}]) ]

(***************************************************************************)
(* Node descriptions                                                       *)
(***************************************************************************)
ValueFits(kind, val, v, cp) ==
  CASE kind = "any" -> TRUE
    [] kind = "eq"  -> v = val
    [] kind = "ne"  -> v # val
    [] kind = "re"  -> FullMatch(val, cp[v])
    [] kind = "nre" -> ~FullMatch(val, cp[v])

TypeKey(n) == <<n, "annis", "node_type">>

SpecMatches(x, s, cp) ==
  CASE s[1] = "node" -> {TypeKey(l[1]) : l \in {k \in x.labels : k[2] = "annis" /\ k[3] = "node_type" /\ k[4] = "node"}}
    [] s[1] = "tok"  -> {TypeKey(n) : n \in x.tok}
    [] s[1] = "tokv" -> {TypeKey(l[1]) : l \in {k \in x.labels : k[1] \in x.tok /\ k[2] = "annis" /\ k[3] = "tok" /\ ValueFits(s[2], s[3], k[4], cp)}}
    [] s[1] = "val"  -> {TypeKey(l[1]) : l \in {k \in x.labels : k[2] = "annis" /\ k[3] = "tok" /\ ValueFits(s[2], s[3], k[4], cp)}}
    [] s[1] = "anno" -> {<<l[1], l[2], l[3]>> : l \in {k \in x.labels : (s[2] = "*" \/ k[2] = s[2]) /\ k[3] = s[3] /\ ValueFits(s[4], s[5], k[4], cp)}}

\* the value by which == and != compare a match of description s; {} if it has none
CompareValue(x, s, m) ==
  IF s[1] = "node" THEN {}
  ELSE IF s[1] = "anno" THEN {l[4] : l \in {k \in x.labels : k[1] = m[1] /\ k[2] = m[2] /\ k[3] = m[3]}}
  ELSE {l[4] : l \in {k \in x.labels : k[1] = m[1] /\ k[2] = "annis" /\ k[3] = "tok"}}

(***************************************************************************)
(* Relations.  An operator is <<"dom"|"ptr", name, min, max, anno>>,       *)
(* <<"prec"|"near", seg, min, max>>, <<"part", min, max>>, <<"o">>,        *)
(* <<"i">>, <<"eq">>, <<"l">>, <<"r">>, <<"ident">>, <<"==">>, <<"!=">>;   *)
(* max is -1 for no limit; anno is <<>> or <<ns, name, kind, val>>.        *)
(***************************************************************************)
Reach(x, c, a, b, mn, mx) ==
  IF c \in DOMAIN x.paths THEN \E p \in x.paths[c][a] : p[1] = b /\ InRange(p[2], mn, mx)
  ELSE a = b /\ InRange(0, mn, mx)

EdgeAnnoFits(x, c, a, b, an, cp) ==
  IF an = <<>> THEN TRUE
  ELSE \E l \in x.elabels : l[1] = c /\ l[2] = a /\ l[3] = b /\ (an[1] = "*" \/ l[4] = an[1]) /\ l[5] = an[2]
                            /\ ValueFits(an[3], an[4], l[6], cp)

EdgeComps(x, ty, name) == {c \in DOMAIN x.paths : c[1] = ty /\ c[3] = name}
BaseOrd == <<"Ordering","annis","">>
SegOrd(seg) == <<"Ordering","default_ns",seg>>
PartComp == <<"PartOf","annis","">>

Precedes(x, seg, mn, mx, a, b) ==
  IF seg = "" THEN \E s \in x.right[a], t \in x.left[b] : Reach(x, BaseOrd, s, t, mn, mx)
  ELSE Reach(x, SegOrd(seg), a, b, mn, mx)

\* position of token b is not before the one of token a
NotAfter(x, a, b) == Reach(x, BaseOrd, a, b, 0, -1)

Holds(x, op, a, b, cp) ==
  CASE op[1] = "dom" -> \E c \in EdgeComps(x, "Dominance", op[2]) : Reach(x, c, a, b, op[3], op[4]) /\ EdgeAnnoFits(x, c, a, b, op[5], cp)
    [] op[1] = "ptr" -> \E c \in EdgeComps(x, "Pointing", op[2]) : Reach(x, c, a, b, op[3], op[4]) /\ EdgeAnnoFits(x, c, a, b, op[5], cp)
    [] op[1] = "prec" -> Precedes(x, op[2], op[3], op[4], a, b)
    [] op[1] = "near" -> Precedes(x, op[2], op[3], op[4], a, b) \/ Precedes(x, op[2], op[3], op[4], b, a)
    [] op[1] = "part" -> Reach(x, PartComp, a, b, op[2], op[3])
    [] op[1] = "o" -> x.text[a] \cap x.text[b] # {}
    [] op[1] = "i" -> \E al \in x.left[a], ar \in x.right[a], bl \in x.left[b], br \in x.right[b] : NotAfter(x, al, bl) /\ NotAfter(x, br, ar)
    [] op[1] = "eq" -> x.left[a] = x.left[b] /\ x.right[a] = x.right[b] /\ x.left[a] # {} /\ x.right[a] # {}
    [] op[1] = "l" -> x.left[a] = x.left[b] /\ x.left[a] # {}
    [] op[1] = "r" -> x.right[a] = x.right[b] /\ x.right[a] # {}
    [] op[1] = "ident" -> a = b

Distinct == {"o", "i", "eq", "l", "r", "part"}

(***************************************************************************)
(* Disjunctive normal form: the set of conjunctions (sets of leaves)       *)
(***************************************************************************)
RECURSIVE Dnf(_)
AndDnf(A, B) == {p \cup q : p \in A, q \in B}
Dnf(f) ==
  CASE f[1] = "and" -> FoldLeft(LAMBDA acc, k : AndDnf(acc, Dnf(k)), {{}}, Tail(f))
    [] f[1] = "or"  -> FoldLeft(LAMBDA acc, k : acc \cup Dnf(k), {}, Tail(f))
    [] OTHER        -> {{f}}

NodesOf(C) == {f \in C : f[1] = "N"}
VarNode(C, v) == CHOOSE n \in NodesOf(C) : n[3] = v
ArityOk(x, f, n) == LET k == Cardinality(x.kids[n]) IN InRange(k, f[3], f[4])

\* required node descriptions in textual order
Required(C) == SetToSortSeq({n \in NodesOf(C) : ~n[5]}, LAMBDA p, q : p[2] < q[2])

(***************************************************************************)
(* The matches of one conjunction                                          *)
(***************************************************************************)
ConjMatchesBy(x, C, cp, old) ==
  LET req == TLCEval(Required(C))
      Pos(v) == CHOOSE i \in DOMAIN req : req[i][3] = v
      Opt(v) == VarNode(C, v)[5]
      U == {f \in C : f[1] = "U"}
      B == {f \in C : f[1] = "B"}
      \* relations against an optional node: no such node may exist
      Excl == TLCEval({f \in B : Opt(f[2]) \/ Opt(f[4])})
      Rels == TLCEval({[i |-> Pos(f[2]), j |-> Pos(f[4]), op |-> f[3], neg |-> f[5]] : f \in B \ Excl})
      OptNodes(v) == {m[1] : m \in SpecMatches(x, VarNode(C, v)[4], cp)}
      ExclOk(f, n) ==
        IF Opt(f[2]) THEN ~\E y \in OptNodes(f[2]) : Holds(x, f[3], y, n, cp)
                     ELSE ~\E y \in OptNodes(f[4]) : Holds(x, f[3], n, y, cp)
      Cand == TLCEval([i \in DOMAIN req |->
                {m \in SpecMatches(x, req[i][4], cp) :
                   /\ \A f \in U : f[2] = req[i][3] => ArityOk(x, f, m[1])
                   /\ \A f \in Excl : (IF Opt(f[2]) THEN f[4] ELSE f[2]) = req[i][3] => ExclOk(f, m[1])}])
      Compare(r, p, q) ==
        LET u == CompareValue(x, req[r.i][4], p)  v == CompareValue(x, req[r.j][4], q)
        IN u # {} /\ v # {} /\ (IF r.op[1] = "==" THEN u = v ELSE u # v)
      RelOk(r, t) ==
        LET p == t[r.i]  q == t[r.j] IN
        IF r.op[1] \in {"==", "!="} THEN Compare(r, p, q)
        ELSE IF r.neg THEN ~Holds(x, r.op, p[1], q[1], cp)
        ELSE Holds(x, r.op, p[1], q[1], cp)
      \* both nodes of such a relation differ from all other nodes of the match
      \* (in old queries: from each other)
      Sep == TLCEval({r \in Rels : ~r.neg /\ r.op[1] \in Distinct})
      SepOk(r, t) == IF old THEN t[r.i] # t[r.j] ELSE \A k \in DOMAIN t : (k # r.i => t[k] # t[r.i]) /\ (k # r.j => t[k] # t[r.j])
      Step(S, k) == {t \in {Append(s, m) : s \in S, m \in Cand[k]} :
                       \A r \in Rels : r.i <= k /\ r.j <= k /\ (r.i = k \/ r.j = k) => RelOk(r, t)}
      All == FoldLeft(LAMBDA S, k : TLCEval(Step(S, k)), {<<>>}, [k \in DOMAIN req |-> k])
  IN {t \in All : \A r \in Sep : SepOk(r, t)}

ConjMatches(x, C, cp) == ConjMatchesBy(x, C, cp, FALSE)

(***************************************************************************)
(* Old queries: the meaning of a query in ANNIS 3.  Unlimited precedence   *)
(* and nearness end after 50 tokens; nodes of a relation are only          *)
(* different from each other; a node with k > 1 dominance or pointing      *)
(* relations occurs k times in the match, the additional ones at its end;  *)
(* a leaf <<"M", spec>> (meta::name="value") demands of the document of    *)
(* the first node of every alternative.                                    *)
(***************************************************************************)
MetasOf(f) == {l \in UNION Dnf(f) : l[1] = "M"}
OldOp(op) == IF op[1] \in {"prec", "near"} /\ op[4] = -1 THEN <<op[1], op[2], 1, 50>> ELSE op
OldLeaf(f) == IF f[1] = "B" THEN <<f[1], f[2], OldOp(f[3]), f[4], f[5]>> ELSE f
TreeRelations(C, v) ==
  LET B == {f \in C : f[1] = "B" /\ f[3][1] \in {"dom", "ptr"}}
  IN Cardinality({f \in B : f[2] = v}) + Cardinality({f \in B : f[4] = v})

OldConjMatches(x, C, metas, cp) ==
  LET D == {OldLeaf(f) : f \in {k \in C : k[1] # "M"}}
      req == TLCEval(Required(D))
      Described(n, s) == \E m \in SpecMatches(x, s, cp) : m[1] = n
      docs == TLCEval({l[1] : l \in {k \in x.labels : k[2] = "annis" /\ k[3] = "doc" /\ \A m \in metas : Described(k[1], m[2])}})
      InDoc(n) == \E d \in docs : Reach(x, PartComp, n, d, 1, -1)
      base == TLCEval({t \in ConjMatchesBy(x, D, cp, TRUE) : metas = {} \/ InDoc(t[1][1])})
      Again(i) == LET k == TreeRelations(D, req[i][3]) IN IF k > 1 THEN [j \in 1..(k - 1) |-> i] ELSE <<>>
      extra == FoldLeft(LAMBDA s, i : s \o Again(i), <<>>, [i \in DOMAIN req |-> i])
      Step(S, i) == LET all == TLCEval(SpecMatches(x, req[i][4], cp))
                    IN UNION {{Append(t, m) : m \in {k \in all : k[1] = t[i][1]}} : t \in S}
  IN FoldLeft(LAMBDA S, i : TLCEval(Step(S, i)), base, extra)

OldMatches(x, f, cp) == UNION {TLCEval(OldConjMatches(x, C, MetasOf(f), cp)) : C \in Dnf(f)}

Matches(x, f, cp) == UNION {TLCEval(ConjMatches(x, C, cp)) : C \in Dnf(f)}
=============================================================================
