---------------------------- MODULE DiskMapTrace ----------------------------
(***************************************************************************)
(* Validates calls and answers of the real disk-backed map.  Keys are      *)
(* numbered in their order, values are numbers.                            *)
(***************************************************************************)
EXTENDS DiskMap, TraceBase, SequencesExt

VARIABLES tid, l
vars == <<tid, l, c0, c1, c2, m, limit>>

Ev == Traces[tid].ev[l]
TraceInit == tid \in 1..NTraces /\ l = 1 /\ MapInit(Traces[tid].limit)
IsEvent(k) == l <= Len(Traces[tid].ev) /\ Ev.e = k /\ l' = l + 1 /\ tid' = tid
X(cond, what, exp, got) == Expect(cond, tid, l, what, exp, got)
Val(f, k) == IF k \in DOMAIN f THEN f[k] ELSE 0

\* the entries of f in key order, with keys within the bounds
Lower(b, k) == b[1] = "u" \/ (b[1] = "i" /\ b[2] <= k) \/ (b[1] = "e" /\ b[2] < k)
Upper(b, k) == b[1] = "u" \/ (b[1] = "i" /\ k <= b[2]) \/ (b[1] = "e" /\ k < b[2])
Entries(f, lo, hi) ==
  LET K == SetToSortSeq({k \in DOMAIN f : Lower(lo, k) /\ Upper(hi, k)}, LAMBDA a, b : a < b)
  IN [i \in DOMAIN K |-> <<K[i], f[K[i]]>>]
All == <<"u", 0>>

Answers(f, a) ==
  /\ \A i \in DOMAIN a.get : X(a.get[i][2] = Val(f, a.get[i][1]), "get", Val(f, a.get[i][1]), a.get[i])
  /\ \A i \in DOMAIN a.has : X(a.has[i][2] = (a.has[i][1] \in DOMAIN f), "contains_key", a.has[i][1] \in DOMAIN f, a.has[i])
  /\ X(a.empty = (DOMAIN f = {}), "is_empty", DOMAIN f = {}, a.empty)
  /\ X(a.iter = Entries(f, All, All), "iteration", Entries(f, All, All), a.iter)
  /\ \A i \in DOMAIN a.rng : LET r == a.rng[i] IN
       X(r[3] = Entries(f, r[1], r[2]), "range", Entries(f, r[1], r[2]), r)

\* the answers recorded after the call, if any
After == IF Has(Ev, "a") THEN Answers(m', Ev.a) ELSE TRUE

TInsert == IsEvent("Insert") /\ Insert(Ev.k, Ev.v) /\ After
TRemove == IsEvent("Remove") /\ Remove(Ev.k) /\ After
           /\ X(Ev.old = Val(m, Ev.k), "removed value", Val(m, Ev.k), Ev.old)
TCompact == IsEvent("Compact") /\ Compact /\ After
TClear == IsEvent("Clear") /\ Clear /\ After
TReopen == IsEvent("Reopen") /\ Reopen /\ After
\* writing to a file without opening it changes nothing
TWrite == IsEvent("Write") /\ UNCHANGED mvars /\ After
Fail == IsEvent("Fail") /\ UNCHANGED mvars /\ Report(tid, l, "call failed", "success", Ev.what)

TraceNext == TInsert \/ TRemove \/ TCompact \/ TClear \/ TReopen \/ TWrite \/ Fail
TraceSpec == TraceInit /\ [][TraceNext]_vars
=============================================================================
