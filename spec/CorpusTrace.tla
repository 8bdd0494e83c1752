---------------------------- MODULE CorpusTrace ----------------------------
(***************************************************************************)
(* Validates recorded answers of corpus storages against Results.  A trace *)
(* builds corpora by update lists and asks for counts, pages of results,   *)
(* frequencies, parts of the graph and listings; each event has the        *)
(* answers of all execution configurations.                                *)
(***************************************************************************)
EXTENDS Results, TraceBase

VARIABLES tid, l, db
vars == <<tid, l, db>>
Ev == Traces[tid].ev[l]
cp == Traces[tid].cp
enc == Traces[tid].enc

TraceInit == /\ tid \in 1..NTraces
             /\ l = 1
             /\ db = <<>>

Old == Has(Ev, "old")
Wanted(x) == IF Old THEN OldMatches(x, Ev.f, cp) ELSE Matches(x, Ev.f, cp)
Alternative(x, C) == IF Old THEN OldConjMatches(x, C, MetasOf(Ev.f), cp) ELSE ConjMatches(x, C, cp)

IsEvent(k) == /\ l <= Len(Traces[tid].ev) /\ Ev.e = k /\ l' = l + 1 /\ tid' = tid

CompsIn(us) == {u[4] : u \in {v \in SeqSet(us) : v[1] \in {"AE"}}}
Update ==
  /\ IsEvent("Update")
  /\ LET old == IF Ev.c \in DOMAIN db THEN db[Ev.c] ELSE [g |-> EmptyGraph, known |-> DefaultComps]
         g2 == TLCEval(ApplyList(old.g, Ev.us))
     IN db' = (Ev.c :> [g |-> g2, known |-> old.known \cup CompsIn(Ev.us)]) @@ db

X(c) == TLCEval(Context(db[c].g))
Each(P(_), M) == \A i \in DOMAIN Ev.ans :
  IF Has(Ev.ans[i], "err") THEN Report(tid, l, "failed: " \o Ev.ans[i].cfg, M, Ev.ans[i].err)
  ELSE P(Ev.ans[i])

(***************************************************************************)
(* Counts                                                                  *)
(***************************************************************************)
Sum(S, F(_)) == FoldSet(LAMBDA c, a : a + F(c), 0, S)
Count ==
  /\ LET R == TLCEval([c \in SeqSet(Ev.cs) |->
                 LET x == X(c)  M == TLCEval(Wanted(x))
                 IN [n |-> Cardinality(M), d |-> Cardinality(DocsOf(x, {m[1][1] : m \in M}))]])
         n == Sum(SeqSet(Ev.cs), LAMBDA c : R[c].n)
         d == Sum(SeqSet(Ev.cs), LAMBDA c : R[c].d)
     IN \A i \in DOMAIN Ev.ans :
          IF Has(Ev.ans[i], "err") THEN Expect(Ev.may, tid, l, "count failed: " \o Ev.ans[i].cfg, [q |-> Ev.text], Ev.ans[i].err)
          ELSE Expect(Ev.ans[i].r = <<n, n, d, n>>, tid, l, "counts: " \o Ev.ans[i].cfg, [n |-> n, docs |-> d, q |-> Ev.text], Ev.ans[i].r)

(***************************************************************************)
(* Result lists                                                            *)
(***************************************************************************)
Texts(s) == [i \in DOMAIN s |-> MatchText(s[i], enc)]
SortedTexts(c) == LET x == X(c) IN Texts(TLCEval(SortedMatches(TLCEval(Matches(x, Ev.f, cp)), TLCEval(NodeRank(x, cp)), cp)))
HowMany(s, v) == Cardinality({i \in DOMAIN s : s[i] = v})
Within(s, t) == \A v \in ASet(s) : HowMany(s, v) <= HowMany(t, v)

PagesOf(whole, a, what) ==
  \A i \in DOMAIN a.pages :
    LET p == a.pages[i] IN
    Expect(p.r = Page(whole, p.o, p.l), tid, l, what \o a.cfg, [o |-> p.o, l |-> p.l, r |-> Page(whole, p.o, p.l), q |-> Ev.text], p.r)

Find ==
  /\ LET cs == SortedNames(Ev.cs, cp)
         S == TLCEval([i \in DOMAIN cs |-> TLCEval(SortedTexts(cs[i]))])
         all == TLCEval(Flat(S))
         sizes == [i \in DOMAIN cs |-> Len(S[i])]
         \* the part of list s that belongs to the i-th corpus
         Block(s, i) == LET o == FoldLeft(LAMBDA a, k : a + sizes[k], 0, [k \in 1..(i - 1) |-> k]) IN SubSeq(s, o + 1, o + sizes[i])
         Unsorted(a) ==
           LET full == a.pages[1].r IN
           /\ Expect(Len(full) = Len(all) /\ \A i \in DOMAIN cs : ASet(Block(full, i)) = ASet(S[i]),
                     tid, l, "unsorted: " \o a.cfg, [r |-> all, q |-> Ev.text], full)
           \* (each query might have another order, so only the size of a page is fixed)
           /\ \A i \in DOMAIN a.pages :
                LET p == a.pages[i] IN
                Expect(Len(p.r) = Len(Page(all, p.o, p.l)) /\ Within(p.r, all), tid, l, "part of unsorted: " \o a.cfg, [o |-> p.o, l |-> p.l, r |-> all, q |-> Ev.text], p.r)
         Random(a) ==
           \A i \in DOMAIN a.pages :
             LET p == a.pages[i] IN
             Expect(Len(p.r) = Len(Page(all, p.o, p.l)) /\ Within(p.r, all), tid, l, "random: " \o a.cfg, [o |-> p.o, l |-> p.l, r |-> all, q |-> Ev.text], p.r)
     IN Each(LAMBDA a : CASE Ev.order = "normal"   -> PagesOf(all, a, "sorted: ")
                          [] Ev.order = "inverted" -> PagesOf(Reverse(all), a, "inverted: ")
                          [] Ev.order = "unsorted" -> Unsorted(a)
                          [] Ev.order = "random"   -> Random(a), [q |-> Ev.text])

Texts2(s) == [i \in DOMAIN s |-> s[i][2]]
\* old queries: any order that does not contradict the order of the matches
OldTexts(x, M) == TLCEval({<<m, OldMatchText(m, enc, Traces[tid].nenc)>> : m \in M})
InOldOrder(x, T, s) ==
  LET At(i) == (CHOOSE p \in T : p[2] = s[i])[1]
  IN \A i \in DOMAIN s : i = 1 \/ CmpOldMatch(x, Traces[tid].srt, cp, At(i - 1), At(i)) <= 0
OldFind ==
  LET cs == IF Ev.order = "inverted" THEN Reverse(SortedNames(Ev.cs, cp)) ELSE SortedNames(Ev.cs, cp)
  IN \E xs \in {[i \in DOMAIN cs |-> X(cs[i])]} :
     \E T \in {TLCEval([i \in DOMAIN cs |-> OldTexts(xs[i], TLCEval(Wanted(xs[i])))])} :
       LET Offset(i) == FoldLeft(LAMBDA a, k : a + Cardinality(T[k]), 0, [k \in 1..(i - 1) |-> k])
           Block(s, i) == SubSeq(s, Offset(i) + 1, Offset(i) + Cardinality(T[i]))
           n == Offset(Len(cs) + 1)
           all == FoldLeft(LAMBDA a, i : a \o SetToSeq(T[i]), <<>>, [i \in DOMAIN cs |-> i])
           texts == Texts2(all)
           Sorted(s, i) == LET b == IF Ev.order = "inverted" THEN Reverse(Block(s, i)) ELSE Block(s, i)
                           IN /\ ASet(b) = {p[2] : p \in T[i]}
                              /\ Cardinality(ASet(b)) < Len(b) \/ InOldOrder(xs[i], T[i], b)
           Judge(a) ==
             LET full == a.pages[1].r IN
             IF Ev.order \in {"normal", "inverted"}
             THEN /\ Expect(Len(full) = n /\ \A i \in DOMAIN cs : Sorted(full, i), tid, l, "old order: " \o a.cfg, [T |-> T, q |-> Ev.text], full)
                  /\ PagesOf(full, a, "pages of old query: ")
             ELSE /\ Expect(Len(full) = n /\ Within(full, texts), tid, l, "old, any order: " \o a.cfg, [T |-> T, q |-> Ev.text], full)
                  /\ \A i \in DOMAIN a.pages :
                       LET p == a.pages[i] IN
                       Expect(Len(p.r) = Len(Page(texts, p.o, p.l)) /\ Within(p.r, texts), tid, l, "part of old, any order: " \o a.cfg, [o |-> p.o, l |-> p.l, q |-> Ev.text], p.r)
       IN Each(Judge, [q |-> Ev.text])

(***************************************************************************)
(* Frequencies                                                             *)
(***************************************************************************)
\* (the value is evaluated only once)
With(v, F(_)) == CHOOSE r \in {F(y) : y \in {v}} : TRUE
RowsOfAll(x, alts, cols) ==
  LET A == TLCEval([C \in alts |-> TLCEval(Alternative(x, C))])
  IN TLCEval([m \in UNION {A[C] : C \in alts} |-> TLCEval(UNION {RowsOf(x, C, m, cols) : C \in {D \in alts : m \in A[D]}})])
FreqOk(a, K) ==
  LET all == TLCEval(UNION {{<<c, m>> : m \in DOMAIN K[c]} : c \in DOMAIN K})
      poss == TLCEval(UNION {K[p[1]][p[2]] : p \in all})
      Sure(v) == Cardinality({p \in all : K[p[1]][p[2]] = {v}})
      Maybe(v) == Cardinality({p \in all : v \in K[p[1]][p[2]]})
      Row(v) == {r[2] : r \in {q \in ASet(a.r.rows) : q[1] = v}}
  IN /\ NoDup([i \in DOMAIN a.r.rows |-> a.r.rows[i][1]])
     /\ {r[1] : r \in ASet(a.r.rows)} \subseteq poss
     /\ \A v \in poss : IF Row(v) = {} THEN Sure(v) = 0 ELSE \A n \in Row(v) : n >= 1 /\ Sure(v) <= n /\ n <= Maybe(v)
     /\ FoldLeft(LAMBDA s, r : s + r[2], 0, a.r.rows) = Cardinality(all)
     /\ \A i \in DOMAIN a.r.counts : i = 1 \/ a.r.counts[i] <= a.r.counts[i - 1]
Freq ==
  /\ \E cols \in {Columns(Ev.f, Ev.def)} : \E alts \in {Dnf(Ev.f)} :
     \E K \in {TLCEval([c \in SeqSet(Ev.cs) |-> With(X(c), LAMBDA x : RowsOfAll(x, alts, cols))])} :
       Each(LAMBDA a : Expect(FreqOk(a, K), tid, l, "frequency: " \o a.cfg, [rows |-> K, q |-> Ev.text, def |-> Ev.def], a.r), [q |-> Ev.text])

(***************************************************************************)
(* Parts of the graph                                                      *)
(***************************************************************************)
SamePart(a, P, q) ==
  LET s == a.st IN
  Expect(/\ ASet(s.labels) = P.labels /\ s.nl = Cardinality(P.labels)
         /\ ASet(s.eo) = P.edges /\ ASet(s.ei) = P.edges
         /\ ASet(s.elabels) = P.elabels
         /\ s.xo = <<>> /\ s.odd = <<>>,
         tid, l, Ev.e \o ": " \o a.cfg,
         [q |-> q, lmiss |-> P.labels \ ASet(s.labels), lextra |-> ASet(s.labels) \ P.labels, emiss |-> P.edges \ ASet(s.eo),
          eextra |-> ASet(s.eo) \ P.edges, ein |-> ASet(s.ei) = P.edges, elab |-> ASet(s.elabels) = P.elabels], [xo |-> s.xo, odd |-> s.odd])

MustFail(q) == \A i \in DOMAIN Ev.ans : Expect(Has(Ev.ans[i], "err"), tid, l, Ev.e \o " should fail: " \o Ev.ans[i].cfg, q, "success")

Sub ==
  /\ LET g == db[Ev.c].g  x == X(Ev.c)
         ids == ASet(Ev.ids)
         q == [ids |-> Ev.ids, l |-> Ev.l, r |-> Ev.r, seg |-> Ev.seg]
     IN IF ~(ids \subseteq g.nodes) \/ (Ev.seg # "" /\ SegOrd(Ev.seg) \notin DOMAIN x.paths /\ \E n \in ids : x.text[n] # {})
        THEN MustFail(q)
        ELSE LET P == TLCEval(Part(g, x, TLCEval(ContextNodes(x, ids, Ev.l, Ev.r, Ev.seg)), ""))
             IN Each(LAMBDA a : SamePart(a, P, q), q)

SubQ ==
  /\ LET g == db[Ev.c].g  x == X(Ev.c)
         M == TLCEval(Wanted(x))
         P == TLCEval(Part(g, x, {e[1] : e \in UNION {SeqSet(m) : m \in M}}, Ev.filter))
         q == [q |-> Ev.text, filter |-> Ev.filter]
     IN Each(LAMBDA a : SamePart(a, P, q), q)

SubC ==
  /\ LET g == db[Ev.c].g  x == X(Ev.c)
         P == TLCEval(Part(g, x, BelowNodes(x, ASet(Ev.ids)), ""))
     IN Each(LAMBDA a : SamePart(a, P, Ev.ids), Ev.ids)

CorpG ==
  /\ LET g == db[Ev.c].g  x == X(Ev.c)
         P == TLCEval(Part(g, x, StructureNodes(x), "PartOf"))
     IN Each(LAMBDA a : SamePart(a, P, Ev.c), Ev.c)

(***************************************************************************)
(* Listings                                                                *)
(***************************************************************************)
Comps ==
  /\ LET g == db[Ev.c].g
         Fits(c) == (Ev.ty = "" \/ c[1] = Ev.ty) /\ (Ev.any \/ c[3] = Ev.name)
         lower == {c \in CompsOf(g) \cup {e[1] : e \in IndexOf(g)} : Fits(c)}
         upper == {c \in db[Ev.c].known : Fits(c)}
     IN Each(LAMBDA a : Expect(NoDup(a.r) /\ lower \subseteq ASet(a.r) /\ ASet(a.r) \subseteq upper, tid, l, "components: " \o a.cfg,
                               [lower |-> lower, upper |-> upper], a.r), {})

AnnosOk(a, L, mode) ==
  /\ NoDup(a.r)
  /\ CASE mode = 0 -> ASet(a.r) = {<<k[1], k[2], "">> : k \in Keys(L)}
       [] mode = 1 -> ASet(a.r) = Values(L)
       [] mode = 2 -> /\ {<<v[1], v[2]>> : v \in ASet(a.r)} = Keys(L)
                      /\ Cardinality(Keys(L)) = Len(a.r)
                      /\ \A v \in ASet(a.r) : v \in Values(L) /\ \A w \in Values(L) : w[1] = v[1] /\ w[2] = v[2] => HowOften(L, w) <= HowOften(L, v)

NAnnos ==
  /\ LET L == db[Ev.c].g.labels IN
     Each(LAMBDA a : Expect(AnnosOk(a, L, Ev.mode), tid, l, "node labels: " \o a.cfg, [values |-> Values(L), mode |-> Ev.mode], a.r), {})

EAnnos ==
  /\ LET L == {e \in db[Ev.c].g.elabels : e[1] = Ev.comp} IN
     Each(LAMBDA a : Expect(AnnosOk(a, L, Ev.mode), tid, l, "edge labels: " \o a.cfg, [comp |-> Ev.comp, values |-> Values(L), mode |-> Ev.mode], a.r), {})

(***************************************************************************)
(* The answers of an event are judged in the state before it               *)
(***************************************************************************)
Asked == /\ \E k \in {"Count", "Find", "Freq", "Sub", "SubQ", "SubC", "CorpG", "Comps", "NAnnos", "EAnnos", "Fail"} : IsEvent(k)
         /\ UNCHANGED db
Answers ==
  l <= Len(Traces[tid].ev) =>
    CASE Ev.e = "Count"  -> Count
      [] Ev.e = "Find"   -> IF Old THEN OldFind ELSE Find
      [] Ev.e = "Freq"   -> Freq
      [] Ev.e = "Sub"    -> Sub
      [] Ev.e = "SubQ"   -> SubQ
      [] Ev.e = "SubC"   -> SubC
      [] Ev.e = "CorpG"  -> CorpG
      [] Ev.e = "Comps"  -> Comps
      [] Ev.e = "NAnnos" -> NAnnos
      [] Ev.e = "EAnnos" -> EAnnos
      [] Ev.e = "Fail"   -> Report(tid, l, "call failed", "success", Ev.what)
      [] OTHER -> TRUE

TraceNext == Update \/ Asked
TraceSpec == TraceInit /\ [][TraceNext]_vars
TypeInv == \A c \in DOMAIN db : NoDangling(db[c].g)
=============================================================================
