----------------------------- MODULE StoreTrace -----------------------------
(***************************************************************************)
(* Validates histories of real corpus storages against Store.  The state   *)
(* is the set of all databases that the events so far allow: after a crash *)
(* during a call several, during concurrent calls one for each order in    *)
(* which the pending calls may have taken effect.                          *)
(*   conf   : set of [db, lin], lin = the calls that took effect but did   *)
(*            not return yet, with their outcome                           *)
(*   calls  : the calls that did not return yet                            *)
(*   holder : the processes that have the directory open                   *)
(*   closing: those that are just closing it                               *)
(***************************************************************************)
EXTENDS Store, TraceBase

VARIABLES tid, l, conf, calls, holder, closing
vars == <<tid, l, conf, calls, holder, closing>>

Ev == Traces[tid].ev[l]

TraceInit == /\ tid \in 1..NTraces
             /\ l = 1
             /\ conf = {[db |-> EmptyDb, lin |-> {}]}
             /\ calls = {}
             /\ holder = {}
             /\ closing = {}

IsEvent(k) == /\ l <= Len(Traces[tid].ev)
              /\ Ev.e = k
              /\ l' = l + 1
              /\ tid' = tid

SameContent(x, st) ==
  /\ ASet(st.labels) = x.labels
  /\ ASet(st.eo) = x.edges
  /\ ASet(st.ei) = x.edges
  /\ ASet(st.elabels) = x.elabels
  /\ st.odd = <<>>

\* the result of the real call is the one of the outcome
Agrees(x, r) ==
  /\ x.k = r.k
  /\ CASE x.k \in {"ok", "err"} -> TRUE
       [] x.k = "names"   -> ASet(r.v) = x.v /\ NoDup(r.v)
       [] x.k = "content" -> SameContent(x.v, r.st)
       [] OTHER -> x.v = r.v

Storage == {"create","delete","apply","import","export","unload","info","preload","reopt","list","count","content"}

(***************************************************************************)
(* Calls one after another                                                 *)
(***************************************************************************)
Do ==
  /\ IsEvent("Do") /\ Ev.o.op \in Storage
  /\ LET poss == TLCEval(UNION {Outcomes(x.db, Ev.o) \cup (IF Ev.io THEN IoOutcomes(x.db, Ev.o) ELSE {}) : x \in conf})
         fit  == TLCEval({x \in poss : Agrees(x, Ev.r)})
     IN /\ Expect(fit # {}, tid, l, Ev.o.op, {[k |-> x.k, v |-> x.v] : x \in poss}, Ev.r)
        /\ conf' = {[db |-> x.db, lin |-> {}] : x \in IF fit # {} THEN fit ELSE poss}
  /\ UNCHANGED <<calls, holder, closing>>

Open ==
  /\ IsEvent("Do") /\ Ev.o.op \in {"open", "open2"}
  /\ IF Ev.r.k = "ok"
     THEN /\ Expect(holder \subseteq closing, tid, l, "opened while in use", "error", Ev.r)
          /\ holder' = IF Ev.o.op = "open" THEN holder \cup {Ev.p} ELSE holder
     ELSE /\ Expect(Ev.io \/ holder # {}, tid, l, "cannot be opened", "ok", Ev.r)
          /\ holder' = holder
  /\ UNCHANGED <<conf, calls, closing>>

Closing ==
  /\ IsEvent("Closing")
  /\ closing' = closing \cup {Ev.p}
  /\ UNCHANGED <<conf, calls, holder>>

Close ==
  /\ IsEvent("Do") /\ Ev.o.op = "close"
  /\ Expect(Ev.r.k = "ok", tid, l, "close", "ok", Ev.r)
  /\ holder' = holder \ {Ev.p}
  /\ closing' = closing \ {Ev.p}
  /\ UNCHANGED <<conf, calls>>

Crash ==
  /\ IsEvent("Crash")
  /\ conf' = {[db |-> d, lin |-> {}] : d \in
                IF Ev.o = <<>> \/ Ev.o[1].op \notin Storage THEN {x.db : x \in conf}
                ELSE UNION {Effects(x.db, Ev.o[1]) : x \in conf}}
  /\ holder' = holder \ {Ev.p}
  /\ closing' = closing \ {Ev.p}
  /\ calls' = {}

\* the directory of one corpus read without the storage, with the derived relations
Direct ==
  /\ IsEvent("Do") /\ Ev.o.op = "direct"
  /\ LET fit == TLCEval({x \in conf :
                  IF Exists(x.db, Ev.o.c)
                  THEN /\ Ev.r.k = "content"
                       /\ SameContent(x.db.c[Ev.o.c], Ev.r.st)
                       /\ LET g == x.db.c[Ev.o.c] IN
                          WellFormedText(g) => (ASet(Ev.r.st.xo) = IndexOf(g) /\ ASet(Ev.r.st.xi) = IndexOf(g))
                  ELSE Ev.r.k = "err"})
     IN /\ Expect(fit # {}, tid, l, "corpus on disk", {Content(x.db, Ev.o.c) : x \in conf}, Ev.r)
        /\ conf' = IF fit # {} THEN fit ELSE conf
  /\ UNCHANGED <<calls, holder, closing>>

(***************************************************************************)
(* Calls at the same time: each takes effect at one moment between its     *)
(* beginning and its end                                                   *)
(***************************************************************************)
Call ==
  /\ IsEvent("Call")
  /\ calls' = calls \cup {[i |-> Ev.i, o |-> Ev.o]}
  /\ UNCHANGED <<conf, holder, closing>>

Step1(x) ==
  LET linned == {y.i : y \in x.lin} IN
  UNION { {[db |-> out.db, lin |-> x.lin \cup {[i |-> c.i, k |-> out.k, v |-> out.v]}] : out \in Outcomes(x.db, c.o)}
          \cup {[db |-> d, lin |-> x.lin] : d \in FirstStep(x.db, c.o)}
          : c \in {d \in calls : d.i \notin linned}}
RECURSIVE Closure(_, _)
Closure(front, all) ==
  LET nxt == UNION {Step1(x) : x \in front} \ all
  IN IF nxt = {} THEN all ELSE Closure(nxt, all \cup nxt)

Ret ==
  /\ IsEvent("Ret")
  /\ LET all  == TLCEval({x \in Closure(conf, conf) : \E y \in x.lin : y.i = Ev.i})
         fit  == TLCEval({x \in all : \E y \in x.lin : y.i = Ev.i /\ Agrees(y, Ev.r)})
         rest == IF fit # {} THEN fit ELSE all
     IN /\ Expect(fit # {}, tid, l, "result of concurrent call",
                  {(CHOOSE y \in x.lin : y.i = Ev.i) : x \in all}, Ev.r)
        /\ conf' = {[db |-> x.db, lin |-> {y \in x.lin : y.i # Ev.i}] : x \in rest}
        /\ calls' = {c \in calls : c.i # Ev.i}
  /\ UNCHANGED <<holder, closing>>

Fail == /\ IsEvent("Fail")
        /\ Report(tid, l, "call failed", "success", Ev.what)
        /\ UNCHANGED <<conf, calls, holder, closing>>

TraceNext == Do \/ Open \/ Closing \/ Close \/ Crash \/ Direct \/ Call \/ Ret \/ Fail
TraceSpec == TraceInit /\ [][TraceNext]_vars

TypeInv == /\ conf # {}
           /\ \A x \in conf : \A c \in DOMAIN x.db.c : NoDangling(x.db.c[c]) /\ Functional(x.db.c[c])
=============================================================================
