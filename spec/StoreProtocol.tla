--------------------------- MODULE StoreProtocol ---------------------------
(***************************************************************************)
(* How a corpus is kept on disk: the folders "current" and "backup", the   *)
(* write-ahead log, the instance of the corpus in the cache, the workers   *)
(* that write the instance to the folder in the background, unloading,     *)
(* reloading, recovery, failures and crashes, at the level of single       *)
(* changes of the file system.                                             *)
(*                                                                         *)
(* The protocol must implement Store: whatever happens, loading the corpus *)
(* gives all acknowledged updates and nothing else.  Contents are the      *)
(* sequences of updates they consist of.  Bug selects a broken variant     *)
(* (former defects of the implementation among them).                      *)
(***************************************************************************)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS MaxUpd, MaxInst, MaxCrash, MaxFail, MaxUnload, Bug, Depth

VARIABLES
  cur, bak,   \* the folders
  inst,       \* instances of the corpus
  cached,     \* the instance in the cache, or 0
  jobs,       \* workers: function from worker number to its state
  op,         \* the update in progress
  opening,    \* the load in progress
  acked,      \* updates whose call took effect
  used,       \* numbers of updates, crashes, failures, unloads, instances, workers so far
  hist        \* what happened, as a schedule for the implementation
vars == <<cur, bak, inst, cached, jobs, op, opening, acked, used, hist>>
view == <<cur, bak, inst, cached, jobs, op, opening, acked, used>>

Parts == {1, 2}
Missing == <<0>>
NoFolder == [ex |-> FALSE, p |-> [x \in Parts |-> Missing], log |-> <<>>]
NewFolder == [ex |-> TRUE, p |-> [x \in Parts |-> Missing], log |-> <<>>]
Folder(v) == [ex |-> TRUE, p |-> [x \in Parts |-> v], log |-> <<>>]   \* (v of even length)
Bad == <<0, 0>>

\* the second part stands for a component that is not always there
Has2(v) == Len(v) % 2 = 0
\* the content that is found on disk
FolderContent(f) ==
  IF f.ex /\ f.p[1] # Missing /\ f.p[2] = (IF Has2(f.p[1]) THEN f.p[1] ELSE Missing) THEN f.p[1] \o f.log ELSE Bad
OnDisk == FolderContent(IF bak.ex THEN bak ELSE cur)

NoOp == [st |-> "none", u |-> 0]
NoOpen == [st |-> "none", i |-> 0, v |-> <<>>]
Workers == DOMAIN jobs
Running(w) == jobs[w].pc \notin {"wait", "done"}
\* a worker reads the instance, all others need it alone
ReadLocked(i) == \E w \in Workers : jobs[w].i = i /\ Running(w)

Init == /\ cur = Folder(<<>>) /\ bak = NoFolder
        /\ inst = [i \in 1..MaxInst |-> [st |-> "free", v |-> <<>>]]
        /\ cached = 0
        /\ jobs = <<>>
        /\ op = NoOp /\ opening = NoOpen
        /\ acked = <<>>
        /\ used = [upd |-> 0, crash |-> 0, fail |-> 0, unload |-> 0, inst |-> 0]
        /\ hist = <<>>

Log(x) == hist' = Append(hist, x)
Inc(k) == used' = [used EXCEPT ![k] = @ + 1]

(***************************************************************************)
(* Writing the content v: the steps of a worker and of the recovery        *)
(***************************************************************************)
FirstStep == "move"
Save(pc, v) ==
  CASE pc = "move" -> /\ IF ~bak.ex THEN bak' = cur /\ cur' = NoFolder
                         ELSE bak' = bak /\ cur' = IF Bug = "noclean" THEN cur ELSE NoFolder
    [] pc = "make" -> /\ cur' = IF cur.ex THEN cur ELSE NewFolder
                      /\ bak' = IF Bug = "dropearly" THEN NoFolder ELSE bak
    [] pc = "part1" -> cur' = [cur EXCEPT !.p[1] = v] /\ bak' = bak
    [] pc = "part2" -> cur' = [cur EXCEPT !.p[2] = IF Has2(v) THEN v ELSE @] /\ bak' = bak
    [] pc = "drop" -> cur' = cur /\ bak' = NoFolder
NextPc(pc) == CASE pc = "move" -> "make" [] pc = "make" -> "part1" [] pc = "part1" -> "part2" [] pc = "part2" -> "drop" [] pc = "drop" -> "done"

(***************************************************************************)
(* Loading                                                                 *)
(***************************************************************************)
Open ==
  /\ cached = 0 /\ opening.st = "none" /\ op.st = "none" /\ used.inst < MaxInst
  /\ Inc("inst")
  /\ LET i == used.inst + 1 IN
     IF bak.ex
     THEN /\ opening' = [st |-> FirstStep, i |-> i, v |-> OnDisk]
          /\ UNCHANGED <<inst, cached>>
     ELSE /\ inst' = [inst EXCEPT ![i] = [st |-> "loaded", v |-> OnDisk]]
          /\ cached' = i
          /\ UNCHANGED opening
  /\ Log("load")
  /\ UNCHANGED <<cur, bak, jobs, op, acked>>
Recover ==
  /\ opening.st # "none"
  /\ IF opening.st = "done"
     THEN /\ inst' = [inst EXCEPT ![opening.i] = [st |-> "loaded", v |-> opening.v]]
          /\ cached' = opening.i
          /\ opening' = NoOpen
          /\ UNCHANGED <<cur, bak, hist>>
     ELSE /\ Save(opening.st, opening.v)
          /\ opening' = [opening EXCEPT !.st = NextPc(@)]
          /\ Log("recover:" \o opening.st)
          /\ UNCHANGED <<inst, cached>>
  /\ UNCHANGED <<jobs, op, acked, used>>
RecoverFails ==
  /\ opening.st \notin {"none", "done"} /\ used.fail < MaxFail
  /\ Inc("fail") /\ Log("error:recover:" \o opening.st)
  /\ opening' = NoOpen
  /\ UNCHANGED <<cur, bak, inst, cached, jobs, op, acked>>

(***************************************************************************)
(* Updates                                                                 *)
(***************************************************************************)
Apply ==
  /\ cached # 0 /\ opening.st = "none" /\ op.st = "none" /\ used.upd < MaxUpd
  /\ ~ReadLocked(cached)
  /\ Inc("upd")
  /\ LET u == used.upd + 1 IN
     /\ op' = [st |-> "log", u |-> u]
     /\ inst' = [inst EXCEPT ![cached].v = Append(@, u)]
  /\ Log("apply")
  /\ UNCHANGED <<cur, bak, cached, jobs, opening, acked>>
WriteLog ==
  /\ op.st = "log"
  /\ LET New(old) == IF Bug = "nomerge" THEN <<op.u>> ELSE Append(old, op.u) IN
     IF bak.ex /\ Bug # "logcurrent"
     THEN bak' = [bak EXCEPT !.log = New(@)] /\ cur' = cur
     ELSE cur' = [cur EXCEPT !.ex = TRUE, !.log = New(@)] /\ bak' = bak
  /\ acked' = Append(acked, op.u)
  /\ op' = NoOp
  /\ jobs' = Append(jobs, [i |-> cached, pc |-> "wait"])
  /\ Log("log")
  /\ UNCHANGED <<inst, cached, opening, used>>
\* the list is rejected or cannot be logged: the instance is not used any more
ApplyFails ==
  /\ op.st = "log" /\ used.fail < MaxFail
  /\ Inc("fail") /\ Log("error:log")
  /\ op' = NoOp
  /\ inst' = IF Bug = "keep" THEN inst ELSE [inst EXCEPT ![cached] = [st |-> "detached", v |-> <<>>]]
  /\ cached' = IF Bug = "keep" THEN cached ELSE 0
  /\ UNCHANGED <<cur, bak, jobs, opening, acked>>

(***************************************************************************)
(* Workers                                                                 *)
(***************************************************************************)
Start(w) ==
  /\ jobs[w].pc = "wait"
  /\ ~(op.st # "none" /\ cached = jobs[w].i)
  /\ \A x \in Workers : ~(jobs[x].i = jobs[w].i /\ Running(x))
  /\ jobs' = [jobs EXCEPT ![w].pc = IF inst[jobs[w].i].st = "loaded" \/ Bug = "nodetach" THEN FirstStep ELSE "done"]
  /\ Log("worker")
  /\ UNCHANGED <<cur, bak, inst, cached, op, opening, acked, used>>
Step(w) ==
  /\ Running(w)
  /\ ~(jobs[w].pc = "move" /\ ~bak.ex /\ ~cur.ex)
  /\ Save(jobs[w].pc, inst[jobs[w].i].v)
  /\ jobs' = [jobs EXCEPT ![w].pc = NextPc(@)]
  /\ Log("worker:" \o jobs[w].pc)
  /\ UNCHANGED <<inst, cached, op, opening, acked, used>>
WorkerFails(w) ==
  /\ Running(w) /\ used.fail < MaxFail
  /\ Inc("fail") /\ Log("error:worker:" \o jobs[w].pc)
  /\ jobs' = [jobs EXCEPT ![w].pc = "done"]
  /\ UNCHANGED <<cur, bak, inst, cached, op, opening, acked>>

(***************************************************************************)
(* Unloading (also by the cache), crashes                                  *)
(***************************************************************************)
Unload ==
  /\ cached # 0 /\ op.st = "none" /\ used.unload < MaxUnload
  /\ Bug = "nodetach" \/ ~ReadLocked(cached)
  /\ Inc("unload") /\ Log("unload")
  /\ inst' = IF Bug = "nodetach" THEN inst ELSE [inst EXCEPT ![cached].st = "detached"]
  /\ cached' = 0
  /\ UNCHANGED <<cur, bak, jobs, op, opening, acked>>
Crash ==
  /\ used.crash < MaxCrash
  /\ Inc("crash") /\ Log("crash")
  /\ inst' = [i \in 1..MaxInst |-> [st |-> "free", v |-> <<>>]]
  /\ cached' = 0 /\ jobs' = <<>> /\ op' = NoOp /\ opening' = NoOpen
  /\ UNCHANGED <<cur, bak, acked>>

Next == \/ Open \/ Recover \/ RecoverFails \/ Apply \/ WriteLog \/ ApplyFails \/ Unload \/ Crash
        \/ \E w \in Workers : Start(w) \/ Step(w) \/ WorkerFails(w)
Spec == Init /\ [][Next]_vars

(***************************************************************************)
(* What must hold                                                          *)
(***************************************************************************)
\* nothing acknowledged is lost, nothing unacknowledged appears
Durable == OnDisk = acked
\* the same is seen by queries
Visible == cached # 0 /\ op.st = "none" => inst[cached].v = acked
\* refinement: updates are the only steps of the abstract database
Atomic == [][acked' = acked \/ (acked' = Append(acked, op.u) /\ op.st = "log")]_vars
\* in the end all updates are part of the corpus files
Quiet == \A w \in Workers : jobs[w].pc = "done"
Integrated == (Quiet /\ Workers # {} /\ opening.st = "none" /\ op.st = "none" /\ used.fail = 0 /\ used.crash = 0 /\ used.unload = 0) => cur.log = <<>> /\ ~bak.ex

\* schedules for the implementation
Emit == Len(hist) = Depth => PrintT("SCHED " \o ToJson(hist))
Short == Len(hist) <= Depth
=============================================================================
