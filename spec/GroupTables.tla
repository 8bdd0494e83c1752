----------------------------- MODULE GroupTables -----------------------------
(***************************************************************************)
(* How the web service keeps the groups in two tables: one with the names  *)
(* of the groups and one with pairs of group and corpus, which refers to   *)
(* the first.  Administrators replace and delete groups at the same time;  *)
(* each request is a transaction of several statements; only one           *)
(* transaction can write, another one fails (busy).  The process might be  *)
(* killed at any time.  Users are authorized by one statement that reads   *)
(* the committed pairs.                                                    *)
(* Checked: what can be read is always what the finished requests say.     *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets

CONSTANTS Writers, GroupNames, Corpora, MaxRequests,
          Atomic,   \* the statements of a request are one transaction
          Cascade,  \* deleting a group deletes its pairs
          Replace   \* replacing a group deletes its pairs

VARIABLES names, pairs,     \* committed tables
          wnames, wpairs,   \* tables as the writing transaction sees them
          owner,            \* writer with the lock
          pc, req,          \* statement to execute and request of each writer
          log,              \* history: requests that were answered with success, in their order
          begun             \* number of requests
vars == <<names, pairs, wnames, wpairs, owner, pc, req, log, begun>>

None == "none"
Requests == [k : {"put"}, g : GroupNames, cs : SUBSET Corpora] \cup [k : {"ungroup"}, g : GroupNames, cs : {{}}]
NoReq == [k |-> None, g |-> None, cs |-> {}]

Init == /\ names = {} /\ pairs = {} /\ wnames = {} /\ wpairs = {}
        /\ owner = None /\ log = <<>> /\ begun = 0
        /\ pc = [w \in Writers |-> "idle"] /\ req = [w \in Writers |-> NoReq]

Begin(w) == /\ pc[w] = "idle" /\ begun < MaxRequests
            /\ \E r \in Requests : req' = [req EXCEPT ![w] = r]
            /\ pc' = [pc EXCEPT ![w] = "first"]
            /\ begun' = begun + 1
            /\ UNCHANGED <<names, pairs, wnames, wpairs, owner, log>>

\* the first statement writes and needs the lock
CanWrite(w) == owner \in {None, w}
Busy(w) == /\ pc[w] # "idle" /\ ~CanWrite(w)
           /\ pc' = [pc EXCEPT ![w] = "idle"]
           /\ UNCHANGED <<names, pairs, wnames, wpairs, owner, req, log, begun>>

\* a statement of w changes the tables to n and p and goes on with the next
Statement(w, next, n, p) ==
  /\ CanWrite(w)
  /\ IF Atomic THEN owner' = w /\ wnames' = n /\ wpairs' = p /\ UNCHANGED <<names, pairs>>
     ELSE owner' = None /\ wnames' = n /\ wpairs' = p /\ names' = n /\ pairs' = p
  /\ pc' = [pc EXCEPT ![w] = next]
  /\ UNCHANGED <<req, log, begun>>

Of(g) == {g} \X Corpora
DeletePairs(w) == /\ pc[w] = "first" /\ req[w].k = "put"
                  /\ Statement(w, "delname", wnames, IF Replace THEN wpairs \ Of(req[w].g) ELSE wpairs)
DeleteName(w) == /\ pc[w] = "delname"
                 /\ Statement(w, "insname", wnames \ {req[w].g}, IF Cascade /\ Replace THEN wpairs \ Of(req[w].g) ELSE wpairs)
InsertName(w) == /\ pc[w] = "insname"
                 /\ Statement(w, "inspairs", wnames \cup {req[w].g}, wpairs)
InsertPair(w) == /\ pc[w] = "inspairs"
                 /\ \E c \in req[w].cs : <<req[w].g, c>> \notin wpairs /\ Statement(w, "inspairs", wnames, wpairs \cup {<<req[w].g, c>>})
Ungroup(w) == /\ pc[w] = "first" /\ req[w].k = "ungroup"
              /\ Statement(w, "commit", wnames \ {req[w].g}, IF Cascade THEN wpairs \ Of(req[w].g) ELSE wpairs)
Commit(w) ==
  /\ \/ pc[w] = "commit"
     \/ pc[w] = "inspairs" /\ \A c \in req[w].cs : <<req[w].g, c>> \in wpairs
  /\ CanWrite(w)
  /\ names' = wnames /\ pairs' = wpairs /\ owner' = None
  /\ log' = Append(log, req[w])
  /\ pc' = [pc EXCEPT ![w] = "idle"]
  /\ UNCHANGED <<wnames, wpairs, req, begun>>

\* what is not committed is lost
Kill == /\ wnames' = names /\ wpairs' = pairs /\ owner' = None
        /\ pc' = [w \in Writers |-> "idle"]
        /\ UNCHANGED <<names, pairs, req, log, begun>>

Next == (\E w \in Writers : Begin(w) \/ Busy(w) \/ DeletePairs(w) \/ DeleteName(w) \/ InsertName(w) \/ InsertPair(w) \/ Ungroup(w) \/ Commit(w)) \/ Kill
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What the finished requests say                                          *)
(***************************************************************************)
About(g) == {i \in DOMAIN log : log[i].g = g}
Last(g) == CHOOSE i \in About(g) : \A j \in About(g) : j <= i
Exists(g) == About(g) # {} /\ log[Last(g)].k = "put"
Granted(g) == IF Exists(g) THEN log[Last(g)].cs ELSE {}

TypeOK == names \subseteq GroupNames /\ pairs \subseteq GroupNames \X Corpora
NoOrphans == \A p \in pairs : p[1] \in names
\* the committed tables are what was requested, also while other requests are executed
AsRequested == \A g \in GroupNames : {p[2] : p \in {q \in pairs : q[1] = g}} = Granted(g) /\ (g \in names <=> Exists(g))
=============================================================================
