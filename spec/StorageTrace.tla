---------------------------- MODULE StorageTrace ----------------------------
(***************************************************************************)
(* Validates the answers of all component representations.                 *)
(***************************************************************************)
EXTENDS Storage, TraceBase

VARIABLES tid, l, n, c, fp, bp     \* fp, bp: path lengths forwards/backwards per start node
vars == <<tid, l, n, c, fp, bp>>

Ev == Traces[tid].ev[l]
Nodes(k) == 0..(k-1)
AdjOf(E, k) == TLCEval([s \in Nodes(k) |-> Out(E, s)])

PathFun(E, k, S) == LET adj == AdjOf(E, k) IN TLCEval([s \in S |-> PathLengths(adj, s)])

TraceInit == /\ tid \in 1..NTraces /\ l = 1 /\ n = 0 /\ c = [E |-> {}, L |-> {}] /\ fp = <<>> /\ bp = <<>>

IsEvent(k) == /\ l <= Len(Traces[tid].ev) /\ Ev.e = k /\ l' = l + 1 /\ tid' = tid

\* the nodes the following answers ask about
StartsAfter(i, k) ==
  LET J == {j \in (i+1)..Len(Traces[tid].ev) : "a" \in DOMAIN Traces[tid].ev[j] /\ "fc" \in DOMAIN Traces[tid].ev[j].a}
  IN IF J = {} THEN {} ELSE
     LET j == CHOOSE x \in J : \A y \in J : x <= y IN {r[1] : r \in ASet(Traces[tid].ev[j].a.fc)}

SetC(x, k) == /\ c' = x
              /\ fp' = PathFun(x.E, k, StartsAfter(l, k))
              /\ bp' = PathFun(Reversed(x.E), k, StartsAfter(l, k))

Graph == /\ IsEvent("Graph")
         /\ n' = Ev.n
         /\ SetC([E |-> ASet(Ev.edges), L |-> ASet(Ev.labels)], Ev.n)

ChangeStep == /\ IsEvent("Change")
              /\ n' = n
              /\ SetC(TLCEval(FoldLeft(LAMBDA x, o : Change(x, o), c, Ev.ops)), n)

X(cond, what, exp, got) == Expect(cond, tid, l, what \o " by " \o ToString(Ev.by), exp, got)

\* a list of answers rows <<.., answer>>; each must be the set f(row), without repetition
Rows(rows, f(_), what) ==
  \A i \in DOMAIN rows : LET r == rows[i]  exp == f(r)  got == r[Len(r)] IN
     X(ASet(got) = exp /\ NoDup(got), what, <<SubSeq(r, 1, Len(r)-1), exp>>, got)

EdgesOK(a) ==
  /\ Rows(a.out, LAMBDA r : Out(c.E, r[1]), "outgoing edges")
  /\ Rows(a.in, LAMBDA r : In(c.E, r[1]), "ingoing edges")
  /\ \A i \in DOMAIN a.has : LET r == a.has[i] IN
       X(r[2] = (Out(c.E, r[1]) # {}) /\ r[3] = (In(c.E, r[1]) # {}), "has edges", r[1], r)
  /\ X(ASet(a.src) = {e[1] : e \in c.E} /\ NoDup(a.src), "source nodes", {e[1] : e \in c.E}, a.src)
  /\ X(ASet(a.root) = {e[1] : e \in c.E} \ {e[2] : e \in c.E} /\ NoDup(a.root), "root nodes",
       {e[1] : e \in c.E} \ {e[2] : e \in c.E}, a.root)
ReachOK(a) ==
  /\ Rows(a.fc, LAMBDA r : Connected(fp[r[1]], r[2], r[3]), "connected")
  /\ Rows(a.fci, LAMBDA r : Connected(bp[r[1]], r[2], r[3]), "inverse connected")

(* A named deviation: the path representation on disk leaves the node itself *)
(* out of is_connected() and distance() (its unit tests demand this).        *)
NotItself(a, s) == IF a.self THEN {} ELSE {s}

Answer == /\ IsEvent("Answer") /\ UNCHANGED <<n, c, fp, bp>>
          /\ LET a == Ev.a IN
             /\ EdgesOK(a) /\ ReachOK(a)
             /\ Rows(a.ic, LAMBDA r : Connected(fp[r[1]], r[2], r[3]) \ NotItself(a, r[1]), "is connected")
             /\ \A i \in DOMAIN a.dist : LET r == a.dist[i] IN
                  LET d == IF r[2] \in NotItself(a, r[1]) THEN -1 ELSE MinLen(fp[r[1]], r[2]) IN
                  X(r[3] = d, "distance", <<r[1], r[2], d>>, r)
             /\ X(ASet(a.labels) = c.L /\ NoDup(a.labels), "edge labels", c.L, a.labels)
             /\ X(a.nl = Cardinality(c.L), "number of edge labels", Cardinality(c.L), a.nl)

Union == /\ IsEvent("Union") /\ UNCHANGED <<n, c, fp, bp>>
         /\ EdgesOK(Ev.a) /\ ReachOK(Ev.a)

\* answers for the closed form
HugeRows(rows, f(_), what) ==
  \A r \in ASet(rows) : \E exp \in {f(r)} : LET got == r[Len(r)] IN
     X(ASet(got) = exp /\ NoDup(got), what, <<SubSeq(r, 1, Len(r)-1), Cardinality(exp)>>, Len(got))
Huge == /\ IsEvent("Huge") /\ UNCHANGED <<n, c, fp, bp>>
        /\ LET a == Ev.a  N == Traces[tid].n  k == Traces[tid].k
               Dn(s, mn, mx) == IF Traces[tid].up THEN Above(N, k, s, mn, mx) ELSE Below(N, k, s, mn, mx)
               Up(s, mn, mx) == IF Traces[tid].up THEN Below(N, k, s, mn, mx) ELSE Above(N, k, s, mn, mx)
               D(s, t) == IF Traces[tid].up THEN TreeDist(k, t, s) ELSE TreeDist(k, s, t)
               Not(s, t) == ~a.self /\ s = t
           IN /\ HugeRows(a.out, LAMBDA r : Dn(r[1], 1, 1), "outgoing edges")
              /\ HugeRows(a.in, LAMBDA r : Up(r[1], 1, 1), "ingoing edges")
              /\ HugeRows(a.fc, LAMBDA r : Dn(r[1], r[2], r[3]), "connected")
              /\ HugeRows(a.fci, LAMBDA r : Up(r[1], r[2], r[3]), "inverse connected")
              /\ \A r \in ASet(a.dist) : X(r[3] = IF Not(r[1], r[2]) THEN -1 ELSE D(r[1], r[2]), "distance", D(r[1], r[2]), r)
              /\ \A r \in ASet(a.ic) : X(r[5] = (~Not(r[1], r[4]) /\ D(r[1], r[4]) # -1 /\ InRange(D(r[1], r[4]), r[2], r[3])), "is connected", D(r[1], r[4]), r)
              /\ X(a.nsrc = IF Traces[tid].up \/ k = 1 THEN N - 1 ELSE ((N - 2) \div k) + 1, "number of sources", N, a.nsrc)

\* statistics must not claim a simpler shape than the component has
Stat == /\ IsEvent("Stat") /\ UNCHANGED <<n, c, fp, bp>>
        /\ LET R == fp
               cyc == \E e \in c.E : e[1] \in DOMAIN fp /\ e[2] \in {p[1] : p \in bp[e[1]]}
               fan == {Cardinality(Out(c.E, s)) : s \in Nodes(n)}
               maxfan == CHOOSE x \in fan : \A y \in fan : y <= x
               tree == (\A s \in Nodes(n) : Cardinality(In(c.E, s)) <= 1)
               lens == UNION {{p[2] : p \in fp[s]} : s \in DOMAIN fp}
               a == Ev.a
           IN /\ X(cyc => a.cyclic, "cycle not noticed", cyc, a)
              /\ X(a.tree => (tree /\ ~cyc), "not a forest", tree, a)
              /\ X(a.maxfan = maxfan, "fan out", maxfan, a)
              /\ X(~a.cyclic => \A d \in lens : d <= a.depth \/ d <= 1, "depth", lens, a)

Fail == /\ IsEvent("Fail") /\ UNCHANGED <<n, c, fp, bp>>
        /\ Report(tid, l, "call failed " \o ToString(Ev.by), "success", Ev.what)

TraceNext == Huge \/ Graph \/ ChangeStep \/ Answer \/ Union \/ Stat \/ Fail
TraceSpec == TraceInit /\ [][TraceNext]_vars
TypeInv == /\ \A e \in c.E : e[1] # e[2]
           /\ \A x \in c.L : <<x[1], x[2]>> \in c.E
VIEWv == <<tid, l>>
=============================================================================
