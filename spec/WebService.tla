----------------------------- MODULE WebService -----------------------------
(***************************************************************************)
(* The web service: who may ask for what, what the answers are, and how    *)
(* administrators change the state.                                        *)
(*   s = [db : corpus -> [root, toks, files], groups : name -> set of      *)
(*        corpora, open : BOOLEAN, blobs : number -> (corpus -> content)]  *)
(*   toks : <<node, word, pos>>, ..   files : <<path, body, folders>>, ..  *)
(*   r    = request with its kind k and user                               *)
(*        who = [h : {"none", "good", "bad"}, admin, groups]               *)
(*   a    = answer with status st, for reads with status 200 content r     *)
(***************************************************************************)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, FiniteSetsExt, TLC

Elems(q) == {q[i] : i \in DOMAIN q}
Field(r, f) == f \in DOMAIN r

(***************************************************************************)
(* Permissions                                                             *)
(***************************************************************************)
Admin(who) == who.h = "good" /\ who.admin
GroupsOf(who) == {"anonymous"} \cup (IF who.h = "good" THEN Elems(who.groups) ELSE {})
Permitted(groups, who) == UNION {groups[g] : g \in GroupsOf(who) \cap DOMAIN groups}
MayRead(s, who, cs) == Admin(who) \/ s.open \/ Elems(cs) \subseteq Permitted(s.groups, who)

AdminKinds == {"groups", "put", "ungroup", "del", "import", "export"}
FreeKinds == {"desc"}

(***************************************************************************)
(* Contents                                                                *)
(***************************************************************************)
NodesOf(c) == {t[1] : t \in Elems(c.toks)} \cup {c.root, c.root \o "/doc"} \cup {f[1] : f \in Elems(c.files)}
Hit(t, q) == \/ q[1] \in {"tok", "next"}
             \/ q[1] = "word" /\ t[2] = q[2]
             \/ q[1] = "pos" /\ t[3] = q[2]
Hits(c, q) ==
  IF q[1] = "next" THEN [i \in 1..(IF c.toks = <<>> THEN 0 ELSE Len(c.toks) - 1) |-> c.toks[i][1] \o " " \o c.toks[i + 1][1]]
  ELSE LET T == SelectSeq(c.toks, LAMBDA t : Hit(t, q))
       IN [i \in DOMAIN T |-> IF q[1] = "pos" THEN "ns::pos::" \o T[i][1] ELSE T[i][1]]
\* the annotation pos of the first node of each hit
HitPos(c, q) ==
  IF q[1] = "next" THEN [i \in 1..(IF c.toks = <<>> THEN 0 ELSE Len(c.toks) - 1) |-> c.toks[i][3]]
  ELSE LET T == SelectSeq(c.toks, LAMBDA t : Hit(t, q)) IN [i \in DOMAIN T |-> T[i][3]]
HitToks(c, q) ==
  IF q[1] = "next" THEN IF Len(c.toks) < 2 THEN {} ELSE {t[1] : t \in Elems(c.toks)}
  ELSE {t[1] : t \in {u \in Elems(c.toks) : Hit(u, q)}}

Cat(ss) == FoldLeft(LAMBDA x, y : x \o y, <<>>, ss)
Cut(q, o, n) == SubSeq(q, o + 1, IF n < 0 \/ o + n > Len(q) THEN Len(q) ELSE o + n)
Times(q, v) == Cardinality({i \in DOMAIN q : q[i] = v})

\* names : all names of corpora in their order
InOrder(names, S) == SelectSeq(names, LAMBDA n : n \in S)

FoundIn(s, names, r) == Cat([i \in DOMAIN InOrder(names, Elems(r.cs)) |-> Hits(s.db[InOrder(names, Elems(r.cs))[i]], r.q)])
Table(s, r) ==
  LET P == Cat([i \in DOMAIN r.cs |-> HitPos(s.db[r.cs[i]], r.q)])
  IN {<< <<v>>, Times(P, v)>> : v \in Elems(P)}

Keys(c) == {<<"annis", "node_name">>, <<"annis", "node_type">>, <<"annis", "doc">>, <<"annis", "tok">>, <<"ns", "pos">>}
           \cup (IF c.files = <<>> THEN {} ELSE {<<"annis", "file">>})
Values(c, ns, name) ==
  CASE ns = "ns" -> {t[3] : t \in Elems(c.toks)}
    [] name = "tok" -> {t[2] : t \in Elems(c.toks)}
    [] name = "doc" -> {"doc"}
    [] name = "node_name" -> NodesOf(c)
    [] name = "node_type" -> {"corpus", "node"} \cup (IF c.files = <<>> THEN {} ELSE {"file"})
    [] OTHER -> {f[1] : f \in Elems(c.files)}

Around(c, r) ==
  LET I == {i \in DOMAIN c.toks : c.toks[i][1] = r.n}
  IN {c.toks[j][1] : j \in {k \in DOMAIN c.toks : \E i \in I : k >= i - r.l /\ k <= i + r.r}}

\* content a of a permitted read r that refers to existing corpora
Content(s, names, r, x) ==
  LET c == s.db[r.cs[1]] IN
  CASE r.k = "count" -> x = <<FoldLeft(LAMBDA n, d : n + Len(Hits(s.db[d], r.q)), 0, r.cs),
                              FoldLeft(LAMBDA n, d : n + (IF Hits(s.db[d], r.q) = <<>> THEN 0 ELSE 1), 0, r.cs)>>
    [] r.k = "find" ->
         LET all == FoundIn(s, names, r) IN
         CASE r.order = "Normal" -> x = Cut(all, r.o, r.n)
           [] r.order = "Inverted" -> x = Cut(Reverse(all), r.o, r.n)
           [] OTHER -> Len(x) = Len(Cut(all, r.o, r.n)) /\ \A v \in Elems(x) : Times(x, v) <= Times(all, v)
    [] r.k = "freq" -> /\ Elems(x) = Table(s, r) /\ Len(x) = Cardinality(Table(s, r))
                       /\ \A i \in DOMAIN x : i > 1 => x[i - 1][2] >= x[i][2]
    [] r.k = "conf" -> TRUE
    [] r.k = "nodeannos" ->
         /\ {<<e[1], e[2]>> : e \in Elems(x)} = Keys(c)
         /\ r.v => \A k \in Keys(c) : {e[3] : e \in {d \in Elems(x) : <<d[1], d[2]>> = k}} = Values(c, k[1], k[2])
    [] r.k = "comps" -> x = IF Len(c.toks) < 2 THEN <<>> ELSE << <<"Pointing", "x", "dep">> >>
    [] r.k = "edgeannos" -> Elems(x) = {<<"ns", "func", c.toks[i][3]>> : i \in 2..Len(c.toks)}
    [] r.k = "subgraph" ->
         /\ Elems(x) \subseteq NodesOf(c)
         /\ Elems(x) \cap {t[1] : t \in Elems(c.toks)} = Around(c, r)
    [] r.k = "subq" ->
         /\ Elems(x) \subseteq NodesOf(c)
         /\ Elems(x) \cap {t[1] : t \in Elems(c.toks)} = HitToks(c, r.q)
    [] r.k = "files" -> /\ Elems(x) = {f[1] : f \in {g \in Elems(c.files) : Field(r, "d") => r.d \in Elems(g[3])}}
                        /\ Len(x) = Cardinality(Elems(x))
    [] r.k = "file" -> \E f \in Elems(c.files) : f[1] = r.n /\ f[2] = x
    [] r.k = "escape" -> \E f \in Elems(c.files) : f[2] = x
    [] r.k = "esclist" -> Elems(x) \subseteq {f[1] : f \in Elems(c.files)}
    [] OTHER -> FALSE

\* may the service refuse to answer a permitted read of existing corpora?
MayFail(s, r) ==
  LET c == s.db[r.cs[1]] IN
  CASE r.k \in {"escape", "esclist"} -> TRUE
    [] r.k = "files" -> c.files = <<>>
    [] r.k = "file" -> ~\E f \in Elems(c.files) : f[1] = r.n
    [] r.k \in {"edgeannos"} -> Len(c.toks) < 2
    [] r.k = "subgraph" -> Around(c, r) = {}
    [] OTHER -> FALSE

NothingOf(x) == x = <<>> \/ (Len(x) = 2 /\ x = <<0, 0>>)

Read(s, names, r, a) ==
  IF ~MayRead(s, r.who, r.cs) THEN a.st = 403
  ELSE IF r.cs = <<>> THEN a.st = 200 /\ NothingOf(a.r)
  ELSE IF Elems(r.cs) \subseteq DOMAIN s.db
       THEN (a.st = 200 /\ Content(s, names, r, a.r)) \/ (a.st >= 400 /\ MayFail(s, r))
       \* a corpus that does not exist
       ELSE a.st >= 400 \/ (a.st = 200 /\ (r.k = "conf" \/
              LET q == [r EXCEPT !.cs = SelectSeq(r.cs, LAMBDA c : c \in DOMAIN s.db)]
              IN IF q.cs = <<>> THEN NothingOf(a.r) ELSE Content(s, names, q, a.r)))

List(s, names, r, a) ==
  /\ a.st = 200
  /\ a.r = InOrder(names, IF Admin(r.who) \/ s.open THEN DOMAIN s.db ELSE DOMAIN s.db \cap Permitted(s.groups, r.who))

GroupTable(s) == {<<g, s.groups[g]>> : g \in DOMAIN s.groups}
Groups(s, a) ==
  /\ a.st = 200
  /\ {<<e[1], Elems(e[2])>> : e \in Elems(a.r)} = GroupTable(s)
  /\ Len(a.r) = Cardinality(DOMAIN s.groups)
  /\ \A e \in Elems(a.r) : Cardinality(Elems(e[2])) = Len(e[2])

(***************************************************************************)
(* Administration                                                          *)
(***************************************************************************)
Without(f, S) == [x \in DOMAIN f \ S |-> f[x]]
Put(groups, r) == (r.g :> Elems(r.cs)) @@ groups
Repeats(q) == Cardinality(Elems(q)) < Len(q)

\* jobs: the result is given once, only to administrators
JobOK(a) == /\ a.st = 202 /\ a.again = 404
            /\ (Field(a, "other") => a.other \in {401, 403})

AdminAnswer(s, names, r, a) ==
  CASE r.k = "groups" -> Groups(s, a)
    [] r.k = "put" -> IF r.n # r.g THEN a.st = 400 ELSE a.st = 200 \/ (Repeats(r.cs) /\ a.st >= 400)
    [] r.k = "ungroup" -> a.st = 200
    [] r.k = "del" -> a.st = IF r.cs[1] \in DOMAIN s.db THEN 200 ELSE 404
    [] r.k = "import" ->
         /\ JobOK(a)
         /\ a.job = IF ~r.over /\ DOMAIN s.blobs[r.b] \cap DOMAIN s.db # {} THEN 410 ELSE 200
         /\ IF a.job = 200 THEN Elems(a.list) = DOMAIN s.db \cup DOMAIN s.blobs[r.b]
            ELSE /\ DOMAIN s.db \subseteq Elems(a.list)
                 /\ Elems(a.list) \subseteq DOMAIN s.db \cup DOMAIN s.blobs[r.b]
    [] r.k = "export" -> JobOK(a) /\ a.job = IF Elems(r.cs) \subseteq DOMAIN s.db THEN 200 ELSE 410

\* the right answer in state s
Right(s, names, r, a) ==
  /\ ~Field(a, "odd")
  /\ Field(a, "leak") => ~a.leak
  /\ IF r.k \in FreeKinds THEN a.st = 200
     \* (a path without a corpus does not exist)
     ELSE IF r.k = "escape" /\ r.cs = <<"">> THEN a.st >= 400
     ELSE IF r.who.h = "bad" THEN a.st = 401
     ELSE IF r.k \in AdminKinds THEN IF Admin(r.who) THEN AdminAnswer(s, names, r, a) ELSE a.st = 403
     ELSE IF r.k = "list" THEN List(s, names, r, a)
     ELSE Read(s, names, r, a)

\* the state after an answered request
After(s, r, a) ==
  IF ~Admin(r.who) THEN s
  ELSE CASE r.k = "put" /\ a.st = 200 -> [s EXCEPT !.groups = Put(@, r)]
         [] r.k = "ungroup" /\ a.st = 200 -> [s EXCEPT !.groups = Without(@, {r.g})]
         [] r.k = "del" /\ a.st = 200 -> [s EXCEPT !.db = Without(@, {r.cs[1]})]
         [] r.k = "import" /\ a.job = 200 -> [s EXCEPT !.db = s.blobs[r.b] @@ @]
         [] r.k = "import" /\ a.job = 410 ->
              [s EXCEPT !.db = @ @@ [c \in (Elems(a.list) \cap DOMAIN s.blobs[r.b]) \ DOMAIN s.db |-> s.blobs[r.b][c]]]
         [] r.k = "export" /\ a.job = 200 ->
              [s EXCEPT !.blobs = (r.b :> [c \in Elems(r.cs) \cap DOMAIN s.db |-> s.db[c]]) @@ @]
         [] OTHER -> s
=============================================================================
