-------------------------------- MODULE Conc ----------------------------------
(* Concurrent Match* calls on one snapshot file, at the granularity of lock and file-system operations.

   Every process is one test; it makes Calls calls, each on a slot of its own.  What a call has to do follows from what
   its slot held before (Kinds): create, match, mismatch (not updatable: fails) or update.  A call reads the file under
   the read lock, decides, and writes under the write lock: an append, or reading the file again and rewriting it
   (truncate, then write).

   The switches give the variants that are wrong and have to be rejected. *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json

CONSTANTS Procs, Calls, AppendLocked, ReadLocked, RereadOnUpdate, Record

Kinds == {"create", "match", "mismatch", "update"}
Torn == "torn"      \* what a reader sees between truncation and write

VARIABLES kind, file, readers, writer, pc, call, buf, res, hist
vars == <<kind, file, readers, writer, pc, call, buf, res, hist>>

Slot(p) == <<p, call[p]>>
Initial(k) == \* the file before: entries of every slot that exists, in some fixed order
  LET slots == {s \in Procs \X (1..Calls) : k[s] # "create"} IN
  CHOOSE f \in [1..Cardinality(slots) -> slots] : \A i, j \in DOMAIN f : i < j => f[i] # f[j]
Before(s, k) == IF k[s] = "match" THEN "new" ELSE "old"

Init == /\ kind \in [Procs \X (1..Calls) -> Kinds]
        /\ file = [i \in DOMAIN Initial(kind) |-> <<Initial(kind)[i], Before(Initial(kind)[i], kind)>>]
        /\ readers = {} /\ writer = 0
        /\ pc = [p \in Procs |-> "rlock"] /\ call = [p \in Procs |-> 1] /\ buf = [p \in Procs |-> <<>>]
        /\ res = <<>> /\ hist = <<>>

Go(p, l) == pc' = [pc EXCEPT ![p] = l] /\ hist' = (IF Record THEN Append(hist, p) ELSE hist)
Held(f, s) == LET is == {i \in DOMAIN f : f[i][1] = s} IN IF is = {} THEN "none" ELSE f[CHOOSE i \in is : \A j \in is : i <= j][2]

RLock(p) == /\ pc[p] = "rlock" /\ (ReadLocked => writer = 0)
            /\ readers' = (IF ReadLocked THEN readers \cup {p} ELSE readers)
            /\ Go(p, "read") /\ UNCHANGED <<kind, file, writer, call, buf, res>>
Read(p) == /\ pc[p] = "read" /\ buf' = [buf EXCEPT ![p] = file] /\ Go(p, "runlock") /\ UNCHANGED <<kind, file, readers, writer, call, res>>
Outcome(p) == LET h == Held(buf[p], Slot(p)) IN
              IF h = "none" THEN "added" ELSE IF h = "new" THEN "passed" ELSE IF kind[Slot(p)] = "mismatch" THEN "failed" ELSE "updated"
RUnlock(p) == /\ pc[p] = "runlock" /\ readers' = readers \ {p}
              /\ Go(p, IF Outcome(p) = "added" THEN (IF AppendLocked THEN "lock" ELSE "append")
                       ELSE IF Outcome(p) = "updated" THEN "lock" ELSE "ret")
              /\ UNCHANGED <<kind, file, writer, call, buf, res>>
Lock(p) == /\ pc[p] = "lock" /\ writer = 0 /\ readers = {} /\ writer' = p
           /\ Go(p, IF Outcome(p) = "added" THEN "append" ELSE IF RereadOnUpdate THEN "reread" ELSE "trunc")
           /\ UNCHANGED <<kind, file, readers, call, buf, res>>
AppendE(p) == /\ pc[p] = "append" /\ file' = Append(file, <<Slot(p), "new">>) /\ Go(p, "unlock")
              /\ UNCHANGED <<kind, readers, writer, call, buf, res>>
Reread(p) == /\ pc[p] = "reread" /\ buf' = [buf EXCEPT ![p] = file] /\ Go(p, "trunc") /\ UNCHANGED <<kind, file, readers, writer, call, res>>
Trunc(p) == /\ pc[p] = "trunc" /\ file' = <<>> /\ Go(p, "write") /\ UNCHANGED <<kind, readers, writer, call, buf, res>>
Write(p) == /\ pc[p] = "write"
            /\ file' = [i \in DOMAIN buf[p] |-> IF buf[p][i][1] = Slot(p) THEN <<Slot(p), "new">> ELSE buf[p][i]]
            /\ Go(p, "unlock") /\ UNCHANGED <<kind, readers, writer, call, buf, res>>
Unlock(p) == /\ pc[p] = "unlock" /\ writer' = (IF writer = p THEN 0 ELSE writer) /\ Go(p, "ret") /\ UNCHANGED <<kind, file, readers, call, buf, res>>
\* buf may have been read again meanwhile, but the slot is the process's own: the outcome is the one it decided on
Ret(p) == /\ pc[p] = "ret" /\ res' = Append(res, <<Slot(p), Outcome(p)>>)
          /\ IF call[p] < Calls THEN call' = [call EXCEPT ![p] = @ + 1] /\ Go(p, "rlock")
             ELSE UNCHANGED call /\ Go(p, "done")
          /\ UNCHANGED <<kind, file, readers, writer, buf>>

Next == \E p \in Procs : RLock(p) \/ Read(p) \/ RUnlock(p) \/ Lock(p) \/ AppendE(p) \/ Reread(p) \/ Trunc(p) \/ Write(p) \/ Unlock(p) \/ Ret(p)
Spec == Init /\ [][Next]_vars

Done == \A p \in Procs : pc[p] = "done"
Expected(s) == CASE kind[s] = "create" -> "added" [] kind[s] = "match" -> "passed" [] kind[s] = "mismatch" -> "failed" [] kind[s] = "update" -> "updated"
\* every call has the outcome of a serial execution
Serial == \A i \in DOMAIN res : res[i][2] = Expected(res[i][1])
\* and the file holds every slot once, with the right value
Final == Done => /\ Len(file) = Cardinality(Procs \X (1..Calls))
                 /\ \A s \in Procs \X (1..Calls) : Held(file, s) = IF kind[s] = "mismatch" THEN "old" ELSE "new"
\* nobody waits for ever
Progress == Done \/ ENABLED Next
Exclusion == writer = 0 \/ readers = {}
Emit == (Record /\ Done) => PrintT(<<"SCRIPT", ToJson(hist)>>)
=============================================================================
