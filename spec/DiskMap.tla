------------------------------ MODULE DiskMap ------------------------------
(***************************************************************************)
(* The disk-backed map: a sorted map m, kept in three layers.  c0 is in    *)
(* memory, c1 is a temporary file, c2 a read-only file.  Deletions leave a *)
(* tombstone in the upper layers; the youngest layer that knows a key      *)
(* decides.                                                                *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, TLCExt

VARIABLES c0, c1, c2, m, limit
mvars == <<c0, c1, c2, m, limit>>

Tomb == -1                       \* values are positive numbers
Empty == <<>>
Dom(f) == DOMAIN f
Put(f, k, v) == TLCEval((k :> v) @@ f)
Drop(f, k) == TLCEval([x \in DOMAIN f \ {k} |-> f[x]])
Over(f, g) == TLCEval(f @@ g)             \* f decides
Live(f) == TLCEval([k \in {x \in DOMAIN f : f[x] # Tomb} |-> f[k]])

\* what the layers say together
View(a, b, c) == Live(a @@ b @@ c)

\* how the code looks a key up
Lookup(k) == IF k \in DOMAIN c0 THEN c0[k] ELSE
             IF k \in DOMAIN c1 THEN c1[k] ELSE
             IF k \in DOMAIN c2 THEN c2[k] ELSE Tomb
ContainsKey(k) == IF k \in DOMAIN c0 THEN c0[k] # Tomb ELSE
                  IF k \in DOMAIN c1 THEN c1[k] # Tomb ELSE
                  k \in DOMAIN c2
\* the lookup as it was before the repair: a tombstone in c1 counts as entry
ContainsKeyBroken(k) == IF k \in DOMAIN c0 THEN c0[k] # Tomb ELSE k \in DOMAIN c1 \/ k \in DOMAIN c2

MapInit(n) == c0 = Empty /\ c1 = Empty /\ c2 = Empty /\ m = Empty /\ limit = n

\* moving c0 into c1 is part of the call that fills c0 up
PutC0(k, v) == LET n0 == Put(c0, k, v) IN
               IF Cardinality(DOMAIN n0) >= limit
               THEN c0' = Empty /\ c1' = Over(n0, c1)
               ELSE c0' = n0 /\ c1' = c1

Insert(k, v) == PutC0(k, v) /\ m' = Put(m, k, v) /\ UNCHANGED <<c2, limit>>
Remove(k) == /\ IF Lookup(k) # Tomb THEN PutC0(k, Tomb) ELSE UNCHANGED <<c0, c1>>
             /\ m' = Drop(m, k) /\ UNCHANGED <<c2, limit>>
Compact == c0' = Empty /\ c1' = Over(c0, c1) /\ UNCHANGED <<c2, m, limit>>
Clear == c0' = Empty /\ c1' = Empty /\ c2' = Empty /\ m' = Empty /\ UNCHANGED limit
\* written to a file that is opened as a new map
Reopen == c2' = View(c0, c1, c2) /\ c0' = Empty /\ c1' = Empty /\ UNCHANGED <<m, limit>>

Refines == View(c0, c1, c2) = m
Lookups == \A k \in DOMAIN c0 \cup DOMAIN c1 \cup DOMAIN c2 :
             /\ (Lookup(k) # Tomb) = (k \in DOMAIN m)
             /\ k \in DOMAIN m => Lookup(k) = m[k]
             /\ ContainsKey(k) = (k \in DOMAIN m)
Contains2 == \A k \in DOMAIN c0 \cup DOMAIN c1 \cup DOMAIN c2 : ContainsKeyBroken(k) = (k \in DOMAIN m)
NoTombInFile == \A k \in DOMAIN c2 : c2[k] # Tomb
=============================================================================
