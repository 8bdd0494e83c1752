------------------------------ MODULE Storage ------------------------------
(***************************************************************************)
(* One component seen as a set E of edges over nodes 0..n-1 and a set L of *)
(* edge labels <<source, target, ns, name, value>>; what every             *)
(* representation of it has to answer.                                     *)
(***************************************************************************)
EXTENDS Naturals, Integers, Sequences, FiniteSets, TLC, TLCExt, SequencesExt

Out(E, s) == {e[2] : e \in {x \in E : x[1] = s}}
In(E, t)  == {e[1] : e \in {x \in E : x[2] = t}}
Reversed(E) == {<<e[2], e[1]>> : e \in E}

(* All <<node, length>> such that a path without repeated nodes of that    *)
(* length leads from s to node (length 0: s itself).  adj: node -> set.    *)
RECURSIVE Paths(_,_,_,_)
Paths(adj, s, seen, len) ==
  {<<s, len>>} \cup UNION {Paths(adj, t, seen \cup {t}, len + 1) : t \in adj[s] \ seen}
PathLengths(adj, s) == Paths(adj, s, {s}, 0)

InRange(d, mn, mx) == d >= mn /\ (mx = -1 \/ d <= mx)
Connected(P, mn, mx) == {p[1] : p \in {q \in P : InRange(q[2], mn, mx)}}
MinLen(P, t) == LET D == {p[2] : p \in {q \in P : q[1] = t}}
                IN IF D = {} THEN -1 ELSE CHOOSE d \in D : \A x \in D : d <= x

\* changes of a writable representation
AddE(c, s, t) == IF s = t THEN c ELSE [c EXCEPT !.E = @ \cup {<<s,t>>}]
DelE(c, s, t) == [E |-> c.E \ {<<s,t>>}, L |-> {l \in c.L : ~(l[1] = s /\ l[2] = t)}]
AddL(c, s, t, ns, nm, v) ==
  IF <<s,t>> \notin c.E THEN c
  ELSE [c EXCEPT !.L = {l \in @ : ~(l[1] = s /\ l[2] = t /\ l[3] = ns /\ l[4] = nm)} \cup {<<s,t,ns,nm,v>>}]
DelL(c, s, t, ns, nm) == [c EXCEPT !.L = {l \in @ : ~(l[1] = s /\ l[2] = t /\ l[3] = ns /\ l[4] = nm)}]
DelN(c, n) == [E |-> {e \in c.E : e[1] # n /\ e[2] # n}, L |-> {l \in c.L : l[1] # n /\ l[2] # n}]

(***************************************************************************)
(* A large component in closed form: the k-ary tree over 0..n-1 (k = 1: a  *)
(* chain) where the parent of i is (i-1) \div k; edges lead from parents   *)
(* to children, or (up) to the parents.                                    *)
(***************************************************************************)
Min2(a, b) == IF a < b THEN a ELSE b
KidsOf(n, k, S) == UNION {(k * x + 1)..Min2(k * x + k, n - 1) : x \in {y \in S : y <= (n - 2) \div k}}
RECURSIVE Levels(_,_,_,_,_,_)
\* nodes below the set S (which is d levels below the start)
Levels(n, k, S, d, mn, mx) ==
  IF S = {} \/ (mx # -1 /\ d > mx) THEN {}
  ELSE (IF d >= mn THEN S ELSE {}) \cup Levels(n, k, KidsOf(n, k, S), d + 1, mn, mx)
Below(n, k, s, mn, mx) ==
  IF k = 1 THEN (s + mn)..(IF mx = -1 THEN n - 1 ELSE Min2(n - 1, s + mx)) ELSE Levels(n, k, {s}, 0, mn, mx)
RECURSIVE AncDist(_,_,_,_)
AncDist(k, s, t, d) == IF t = s THEN d ELSE IF t < s \/ t = 0 THEN -1 ELSE AncDist(k, s, (t - 1) \div k, d + 1)
\* distance from the ancestor s down to t
TreeDist(k, s, t) == IF k = 1 THEN (IF t >= s THEN t - s ELSE -1) ELSE AncDist(k, s, t, 0)
RECURSIVE Ancestors(_,_,_)
Ancestors(k, t, d) == {<<t, d>>} \cup (IF t = 0 THEN {} ELSE Ancestors(k, (t - 1) \div k, d + 1))
Above(n, k, t, mn, mx) ==
  IF k = 1 THEN (IF mx = -1 \/ mx > t THEN 0 ELSE t - mx)..(t - mn)
  ELSE {p[1] : p \in {q \in Ancestors(k, t, 0) : InRange(q[2], mn, mx)}}

Change(c, o) ==
  CASE o[1] = "AE" -> AddE(c, o[2], o[3])
    [] o[1] = "DE" -> DelE(c, o[2], o[3])
    [] o[1] = "AL" -> AddL(c, o[2], o[3], "n", o[4], o[5])
    [] o[1] = "DL" -> DelL(c, o[2], o[3], "n", o[4])
    [] o[1] = "DN" -> DelN(c, o[2])
    [] o[1] = "CLR" -> [E |-> {}, L |-> {}]
    [] OTHER -> c
=============================================================================
