---------------------------- MODULE LockProtocol ----------------------------
(***************************************************************************)
(* How a database directory is used by one instance only: the lock file    *)
(* is created or opened, locked without waiting, compared with the file of *)
(* that name, and removed when the directory is closed.  Locks belong to   *)
(* files, not to names; they disappear with their process.  Closing waits  *)
(* for the background workers.                                             *)
(***************************************************************************)
EXTENDS Naturals, FiniteSets, TLC
CONSTANTS Procs, MaxFiles, MaxCrash, Bug

VARIABLES name,    \* the file with the name of the lock file (0: none)
          files,   \* number of files created so far
          owner,   \* the process that has the lock of a file
          pc, fd,  \* what a process does, and the file it has opened
          work,    \* number of unfinished background workers of a process
          crashes
vars == <<name, files, owner, pc, fd, work, crashes>>
None == "none"

Init == /\ name = 0 /\ files = 0
        /\ owner = [f \in 1..MaxFiles |-> None]
        /\ pc = [p \in Procs |-> "idle"] /\ fd = [p \in Procs |-> 0]
        /\ work = [p \in Procs |-> 0] /\ crashes = 0

Set(p, s) == pc' = [pc EXCEPT ![p] = s]

OpenFile(p) ==
  /\ pc[p] = "idle"
  /\ \/ name # 0 /\ fd' = [fd EXCEPT ![p] = name] /\ UNCHANGED <<name, files>>
     \/ name = 0 /\ files < MaxFiles /\ files' = files + 1 /\ name' = files + 1 /\ fd' = [fd EXCEPT ![p] = files + 1]
  /\ Set(p, "opened") /\ UNCHANGED <<owner, work, crashes>>
TryLock(p) ==
  /\ pc[p] = "opened"
  /\ IF owner[fd[p]] = None
     THEN owner' = [owner EXCEPT ![fd[p]] = p] /\ Set(p, IF Bug = "nocheck" THEN "using" ELSE "locked") /\ fd' = fd
     ELSE Set(p, "idle") /\ fd' = [fd EXCEPT ![p] = 0] /\ owner' = owner     \* refused
  /\ UNCHANGED <<name, files, work, crashes>>
Compare(p) ==
  /\ pc[p] = "locked"
  /\ IF fd[p] = name THEN Set(p, "using") /\ UNCHANGED <<fd, owner>>
     ELSE Set(p, "idle") /\ owner' = [owner EXCEPT ![fd[p]] = None] /\ fd' = [fd EXCEPT ![p] = 0]
  /\ UNCHANGED <<name, files, work, crashes>>
Update(p) == pc[p] = "using" /\ work[p] < 1 /\ work' = [work EXCEPT ![p] = @ + 1] /\ UNCHANGED <<name, files, owner, pc, fd, crashes>>
WorkEnds(p) == work[p] > 0 /\ work' = [work EXCEPT ![p] = @ - 1] /\ UNCHANGED <<name, files, owner, pc, fd, crashes>>
Close(p) ==
  /\ pc[p] = "using"
  /\ work[p] = 0 \/ Bug = "nowait"
  /\ Set(p, IF Bug = "unlockfirst" THEN "unlocking" ELSE "removing")
  /\ UNCHANGED <<name, files, owner, fd, work, crashes>>
Remove(p) ==
  /\ pc[p] = "removing"
  /\ name' = 0
  /\ Set(p, IF Bug = "unlockfirst" THEN "idle" ELSE "unlocking")
  /\ UNCHANGED <<files, owner, fd, work, crashes>>
Unlock(p) ==
  /\ pc[p] = "unlocking"
  /\ owner' = [owner EXCEPT ![fd[p]] = None] /\ fd' = [fd EXCEPT ![p] = 0]
  /\ Set(p, IF Bug = "unlockfirst" THEN "removing" ELSE "idle")
  /\ UNCHANGED <<name, files, work, crashes>>
Die(p) ==
  /\ pc[p] # "idle" /\ crashes < MaxCrash
  /\ crashes' = crashes + 1
  /\ owner' = [f \in 1..MaxFiles |-> IF owner[f] = p THEN None ELSE owner[f]]
  /\ fd' = [fd EXCEPT ![p] = 0] /\ work' = [work EXCEPT ![p] = 0]
  /\ Set(p, "idle") /\ UNCHANGED <<name, files>>

Next == \E p \in Procs : OpenFile(p) \/ TryLock(p) \/ Compare(p) \/ Update(p) \/ WorkEnds(p) \/ Close(p) \/ Remove(p) \/ Unlock(p) \/ Die(p)
Spec == Init /\ [][Next]_vars

\* those that may change the directory
Users == {p \in Procs : pc[p] = "using" \/ work[p] > 0}
Exclusive == Cardinality(Users) <= 1
\* the directory can be opened when nobody uses it: a lock is held only by those who use, open or close it
Free == (\A p \in Procs : pc[p] = "idle") => \A f \in 1..MaxFiles : owner[f] = None
=============================================================================
