----------------------------- MODULE AnnoTrace -----------------------------
(***************************************************************************)
(* Validates calls and answers of the real label stores.  A trace names    *)
(* its strings: text[v] are the code points of value v.  Answers are lists *)
(* of rows <<arguments..., result>>.                                       *)
(***************************************************************************)
EXTENDS AnnoStore, TraceBase, FiniteSetsExt

VARIABLES tid, l
vars == <<tid, l, lab>>

Ev == Traces[tid].ev[l]
Txt(v) == Traces[tid].text[v]
TraceInit == tid \in 1..NTraces /\ l = 1 /\ AnnoInit
IsEvent(k) == l <= Len(Traces[tid].ev) /\ Ev.e = k /\ l' = l + 1 /\ tid' = tid
X(cond, what, exp, got) == Expect(cond, tid, l, what, exp, got)
Val(f, i, k) == LET S == {x \in f : x[1] = i /\ x[2] = k[1] /\ x[3] = k[2]} IN IF S = {} THEN 0 ELSE (CHOOSE x \in S : TRUE)[4]

\* a list that must contain exactly the elements of a set, each once
Exactly(list, S, what, row) == X(ASet(list) = S /\ Len(list) = Cardinality(S), what, S, row)
\* a search result: the match of an edge only names its source, so each match
\* must occur as often as there are such items
Src(i) == Traces[tid].src[i]
Count(list, m) == Cardinality({i \in DOMAIN list : list[i] = m})
Found(list, S, what, row) ==
  X(LET img == {<<Src(x[1]), x[2], x[3]>> : x \in S}  got == ASet(list) IN
    /\ Len(list) = Cardinality(S)
    /\ got = img
    /\ Cardinality(img) = Cardinality(S) \/
       \A m \in got : Count(list, m) = Cardinality({x \in S : <<Src(x[1]), x[2], x[3]>> = m}), what, S, row)
Largest(f) == FoldSet(LAMBDA x, m : IF x[1] > m THEN x[1] ELSE m, 0, f)

Answers(f, a) ==
  /\ \A r \in ASet(a.item) : Exactly(r[2], OfItem(f, r[1]), "labels of item", r)
  /\ \A r \in ASet(a.keys) : Exactly(r[4], KeysOfItem(f, r[1], r[2], r[3]), "keys of item", r)
  /\ \A r \in ASet(a.val) : X(r[3] = Val(f, r[1], r[2]) /\ r[4] = (Val(f, r[1], r[2]) # 0), "value of item", Val(f, r[1], r[2]), r)
  /\ \A r \in ASet(a.iter) : Found(r[4], {x \in Sel(f, r[1], r[2]) : x[1] \in ASet(r[3])}, "keys for items", r)
  /\ \A r \in ASet(a.qn) : Exactly(r[2], Names(f, r[1]), "qualified names", r)
  /\ Exactly(a.allkeys, KeysOf(f), "all keys", a.allkeys)
  /\ X(a.n = Cardinality(f), "number of labels", Cardinality(f), a.n)
  /\ X(a.empty = (f = {}), "is empty", f = {}, a.empty)
  /\ \A r \in ASet(a.cnt) : X(r[3] = Cardinality(Sel(f, r[1], <<r[2]>>)), "number by name", Cardinality(Sel(f, r[1], <<r[2]>>)), r)
  /\ \A r \in ASet(a.any) : Found(r[3], SearchAny(f, r[1], r[2]), "search any value", r)
  /\ \A r \in ASet(a.some) : Found(r[4], SearchSome(f, r[1], r[2], r[3]), "search value", r)
  /\ \A r \in ASet(a.no) : Found(r[4], SearchNot(f, r[1], r[2], r[3]), "search other value", r)
  /\ \A r \in ASet(a.re) : Found(r[5], SearchRegex(f, r[1], r[2], r[3], r[4], Txt), "search regular expression", r)
  /\ \A r \in ASet(a.vals) : /\ Exactly(r[2], ValuesOf(f, r[1]), "values", r)
                             /\ Exactly(r[3], ValuesOf(f, r[1]), "values by frequency", r)
                             /\ X(\A i \in 1..(Len(r[3]) - 1) : Frequency(f, r[1], r[3][i]) >= Frequency(f, r[1], r[3][i + 1]),
                                  "order of values by frequency", "most frequent first", r)
  \* (an upper bound is enough for creating new items)
  /\ X(a.largest >= Largest(f), "largest item", Largest(f), a.largest)
  /\ IF Has(a, "named") THEN \A r \in ASet(a.named) :
       LET S == {x[1] : x \in SearchSome(f, <<"annis">>, "node_name", r[1])} IN
       X((S = {} /\ r[2] = 0 /\ ~r[3]) \/ (r[2] \in S /\ r[3]), "node of that name", S, r) ELSE TRUE

After == IF Has(Ev, "a") THEN Answers(lab', Ev.a) ELSE TRUE

TInsert == IsEvent("Insert") /\ Insert(Ev.i, Ev.k, Ev.v) /\ After
TFill == IsEvent("Fill") /\ Fill(Ev.from, Ev.to, Ev.k, Ev.m) /\ After
TRemove == IsEvent("Remove") /\ RemoveAnno(Ev.i, Ev.k) /\ After
           /\ X(Ev.old = Val(lab, Ev.i, Ev.k), "removed value", Val(lab, Ev.i, Ev.k), Ev.old)
TRemoveItem == IsEvent("RemoveItem") /\ RemoveItem(Ev.i) /\ After
           /\ X(Ev.had = (OfItem(lab, Ev.i) # {}), "item had labels", OfItem(lab, Ev.i) # {}, Ev.had)
TClear == IsEvent("Clear") /\ ClearAll /\ After
\* statistics, saving and loading change nothing
TSame == IsEvent("Same") /\ UNCHANGED lab /\ After
Fail == IsEvent("Fail") /\ UNCHANGED lab /\ Report(tid, l, "call failed", "success", Ev.what)

TraceNext == TInsert \/ TFill \/ TRemove \/ TRemoveItem \/ TClear \/ TSame \/ Fail
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
