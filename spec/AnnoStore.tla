----------------------------- MODULE AnnoStore -----------------------------
(***************************************************************************)
(* A store of labels for items (nodes or edges).  The whole state is a     *)
(* set of <<item, namespace, name, value>>, at most one value each; every  *)
(* lookup and search is defined by it.  Items are numbers (in the order of *)
(* the real items), values are numbers of strings whose code points are    *)
(* known (for regular expressions).                                        *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, Regex

VARIABLE lab

AnnoInit == lab = {}
Without(f, i, k) == {x \in f : ~(x[1] = i /\ x[2] = k[1] /\ x[3] = k[2])}

Insert(i, k, v) == lab' = Without(lab, i, k) \cup {<<i, k[1], k[2], v>>}
\* the same label for many items at once, with alternating values
Fill(from, to, k, m) ==
  lab' = {x \in lab : ~(x[1] \in from..to /\ x[2] = k[1] /\ x[3] = k[2])} \cup {<<i, k[1], k[2], (i % m) + 1>> : i \in from..to}
RemoveAnno(i, k) == lab' = Without(lab, i, k)
RemoveItem(i) == lab' = {x \in lab : x[1] # i}
ClearAll == lab' = {}

\* o is an optional string: <<>> or <<s>>
Opt(o, s) == o = <<>> \/ o[1] = s
Sel(f, ns, name) == {x \in f : Opt(ns, x[2]) /\ Opt(name, x[3])}

OfItem(f, i) == {<<x[2], x[3], x[4]>> : x \in {y \in f : y[1] = i}}
KeysOfItem(f, i, ns, name) == {<<x[2], x[3]>> : x \in {y \in Sel(f, ns, name) : y[1] = i}}
Names(f, name) == {<<x[2], x[3]>> : x \in Sel(f, <<>>, <<name>>)}
KeysOf(f) == {<<x[2], x[3]>> : x \in f}
SearchAny(f, ns, name) == Sel(f, ns, <<name>>)
SearchSome(f, ns, name, v) == {x \in Sel(f, ns, <<name>>) : x[4] = v}
SearchNot(f, ns, name, v) == {x \in Sel(f, ns, <<name>>) : x[4] # v}
\* full matches only
SearchRegex(f, ns, name, re, neg, txt(_)) ==
  LET all == Sel(f, ns, <<name>>)
      found == {v \in {x[4] : x \in all} : FullMatch(re, txt(v)) # neg}
  IN {x \in all : x[4] \in found}
ValuesOf(f, k) == {x[4] : x \in Sel(f, <<k[1]>>, <<k[2]>>)}
Frequency(f, k, v) == Cardinality({x \in Sel(f, <<k[1]>>, <<k[2]>>) : x[4] = v})
=============================================================================
