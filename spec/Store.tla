------------------------------- MODULE Store -------------------------------
(***************************************************************************)
(* The abstract state of a database directory and the meaning of the calls *)
(* of the corpus storage.  A database is a record                          *)
(*   c : function from the names of the existing corpora to their content  *)
(*   f : function from file names to the content exported to them          *)
(* Unloading, preloading, optimizing, eviction, writing to disk in the     *)
(* background and reopening are not part of the state: they must not be    *)
(* visible.                                                                *)
(***************************************************************************)
EXTENDS AnnoGraph

EmptyDb == [c |-> [x \in {} |-> EmptyGraph], f |-> [x \in {} |-> EmptyGraph]]

PutFun(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
DropFun(f, k)   == [x \in DOMAIN f \ {k} |-> f[x]]
Put(db, c, g)   == [db EXCEPT !.c = PutFun(@, c, g)]
Drop(db, c)     == [db EXCEPT !.c = DropFun(@, c)]
Exists(db, c)   == c \in DOMAIN db.c
Content(db, c)  == IF Exists(db, c) THEN db.c[c] ELSE EmptyGraph

(***************************************************************************)
(* The possible outcomes of a call: result and database afterwards         *)
(***************************************************************************)
O(db, k, v) == [db |-> db, k |-> k, v |-> v]
Ok(db)      == O(db, "ok", 0)
Err(db)     == O(db, "err", 0)

Outcomes(db, o) ==
  CASE o.op = "create"  -> IF Exists(db, o.c) THEN {O(db, "bool", FALSE)}
                           ELSE {O(Put(db, o.c, EmptyGraph), "bool", TRUE)}
    [] o.op = "delete"  -> IF Exists(db, o.c) THEN {O(Drop(db, o.c), "bool", TRUE)}
                           ELSE {O(db, "bool", FALSE)}
    \* a list is carried out completely or, if one of its changes cannot be, not at all
    [] o.op = "apply"   -> {Ok(Put(db, o.c, ApplyList(Content(db, o.c), o.us)))} \cup
                           (IF Faulty(Content(db, o.c), o.us)
                            THEN {Err(db)} \cup (IF Exists(db, o.c) THEN {} ELSE {Err(Put(db, o.c, EmptyGraph))})
                            ELSE {})
    [] o.op = "import"  -> IF o.path \notin DOMAIN db.f \/ (Exists(db, o.c) /\ ~o.over) THEN {Err(db)}
                           ELSE {Ok(Put(db, o.c, db.f[o.path]))}
    [] o.op = "export"  -> IF Exists(db, o.c) THEN {Ok([db EXCEPT !.f = PutFun(@, o.path, db.c[o.c])])}
                           ELSE {Err(db)}
    [] o.op = "unload"  -> {Ok(db)}
    [] o.op = "info"    -> IF Exists(db, o.c) THEN {Ok(db)} ELSE {Ok(db), Err(db)}
    [] o.op \in {"preload", "reopt"} -> IF Exists(db, o.c) THEN {Ok(db)} ELSE {Err(db)}
    [] o.op = "list"    -> {O(db, "names", DOMAIN db.c)}
    [] o.op = "count"   -> IF Exists(db, o.c) THEN {O(db, "num", Cardinality(db.c[o.c].nodes))} ELSE {Err(db)}
    [] o.op = "content" -> IF Exists(db, o.c) THEN {O(db, "content", db.c[o.c])} ELSE {Err(db)}
    [] OTHER -> {}

(* Changes that other calls can see before the one of the call itself: an  *)
(* update creates a missing corpus first                                   *)
FirstStep(db, o) == IF o.op = "apply" /\ ~Exists(db, o.c) THEN {Put(db, o.c, EmptyGraph)} ELSE {}

(* Outcomes of a call that could not make one of its changes on the disk   *)
IoOutcomes(db, o) ==
  CASE o.op = "create" -> {Err(db)} \cup (IF Exists(db, o.c) THEN {} ELSE {Err(Put(db, o.c, EmptyGraph))})
    [] o.op = "delete" -> {Err(db), Err(Drop(db, o.c))}
    [] o.op = "apply"  -> {Err(db)} \cup (IF Exists(db, o.c) THEN {} ELSE {Err(Put(db, o.c, EmptyGraph))})
    [] o.op = "import" -> {Err(db)} \cup (IF o.over THEN {Err(Drop(db, o.c))} ELSE {})
    [] OTHER -> {Err(db)}

(* What a call may have done when its process died during it               *)
Effects(db, o) ==
  {db} \cup {x.db : x \in Outcomes(db, o)}
       \cup FirstStep(db, o)
       \cup (IF o.op = "import" /\ o.over THEN {Drop(db, o.c)} ELSE {})
=============================================================================
