------------------------------- MODULE Reader -------------------------------
(***************************************************************************)
(* Reading ahead.  While one block is searched, a task reads the next into *)
(* the other of two buffers.  The bytes of the file are its positions,     *)
(* 1..len.  While a buffer is being filled its contents are arbitrary (0). *)
(* Reading may fail at any position: the search then ends with a failure,  *)
(* and never as if the input ended there.                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, TLC, IOUtils

VARIABLES len, blk,  \* length of the file, size of blocks
          fault,     \* where reading fails, or -1
          pos,       \* how much of it was read
          cur, nxt,  \* which buffer is which
          buf,       \* their contents
          task,      \* the reading task: idle, asked for, running, or done
          pc,        \* what the searching thread is about to do
          blkbuf, n, \* the block at hand: its buffer and length
          off,       \* its offset
          seen,      \* the bytes searched so far
          log        \* the order of events: F, f: filling begins, ends (x: fails); S, s: searching
vars == <<fault, len, blk, pos, cur, nxt, buf, task, pc, blkbuf, n, off, seen, log>>

Min(a, b) == IF a < b THEN a ELSE b
Slice(a, k) == [i \in 1..k |-> a + i]
Dirty(k) == [i \in 1..k |-> 0]

\* file sizes and block sizes to explore: as many blocks as MAXBLOCKS says
MaxBlocks == atoi(IOEnv.MAXBLOCKS)
InitR ==
  /\ blk \in 1..3 /\ len \in 0..(MaxBlocks * blk)
  /\ fault \in -1..len
  /\ pos = 0 /\ cur = 0 /\ nxt = 1 /\ buf = [i \in {0, 1} |-> <<>>]
  /\ task = [st |-> "idle"] /\ pc = "first" /\ blkbuf = 0 /\ n = 0 /\ off = 0 /\ seen = <<>> /\ log = ""

\* the reader: the buffers change places, and a task fills what is now the next
Ask == /\ task.st = "idle"
       /\ cur' = nxt /\ nxt' = cur
       /\ task' = [st |-> "asked", into |-> cur, got |-> 0]
Begin == /\ task.st = "asked"
         /\ task' = [task EXCEPT !.st = "running"]
         /\ buf' = [buf EXCEPT ![task.into] = Dirty(blk)]
         /\ log' = log \o "F"
         /\ UNCHANGED <<fault, len, blk, pos, cur, nxt, pc, blkbuf, n, off, seen>>
\* what is wanted reaches beyond where reading fails
Failing == 0 <= fault /\ fault < pos + blk
End == /\ task.st = "running"
       /\ LET k == IF Failing THEN fault - pos ELSE Min(blk, len - pos) IN
          /\ buf' = [buf EXCEPT ![task.into] = Slice(pos, k)]
          /\ pos' = pos + k
          /\ task' = [task EXCEPT !.st = IF Failing THEN "failed" ELSE "done", !.got = k]
       /\ log' = log \o (IF Failing THEN "x" ELSE "f")
       /\ UNCHANGED <<fault, len, blk, cur, nxt, pc, blkbuf, n, off, seen>>
Collect == /\ task.st = "done"
           /\ blkbuf' = task.into /\ n' = task.got
           /\ task' = [st |-> "idle"]

\* the searching thread
First == pc = "first" /\ Ask /\ pc' = "await"
         /\ UNCHANGED <<fault, len, blk, pos, buf, blkbuf, n, off, seen, log>>
Await == pc = "await" /\ Collect /\ pc' = "loop"
         /\ UNCHANGED <<fault, len, blk, pos, cur, nxt, buf, off, seen, log>>
AwaitFailed == pc = "await" /\ task.st = "failed" /\ pc' = "failed"
               /\ (IOEnv.EMIT = "1" => PrintT(<<"SCHED", len, blk, fault, log>>))
               /\ UNCHANGED <<fault, len, blk, pos, cur, nxt, buf, task, blkbuf, n, off, seen, log>>
Loop == pc = "loop"
        /\ (IF n > 0 THEN Ask ELSE UNCHANGED <<task, cur, nxt>>)
        /\ pc' = "search"
        /\ UNCHANGED <<fault, len, blk, pos, buf, blkbuf, n, off, seen, log>>
SearchBegin == pc = "search" /\ pc' = "searching" /\ log' = log \o "S"
               /\ UNCHANGED <<fault, len, blk, pos, cur, nxt, buf, task, blkbuf, n, off, seen>>
SearchEnd == pc = "searching" /\ log' = log \o "s"
             /\ seen' = seen \o buf[blkbuf] /\ off' = off + n
             /\ pc' = (IF n > 0 THEN "await" ELSE "close")
             /\ UNCHANGED <<fault, len, blk, pos, cur, nxt, buf, task, blkbuf, n>>
Close == pc = "close" /\ pc' = "done"
         /\ (IOEnv.EMIT = "1" => PrintT(<<"SCHED", len, blk, fault, log>>))
         /\ UNCHANGED <<fault, len, blk, pos, cur, nxt, buf, task, blkbuf, n, off, seen, log>>
Finished == pc \in {"done", "failed"} /\ UNCHANGED vars

NextR == First \/ Await \/ AwaitFailed \/ Loop \/ SearchBegin \/ SearchEnd \/ Close \/ Begin \/ End \/ Finished
Reading == Begin \/ End
Searching == First \/ Await \/ AwaitFailed \/ Loop \/ SearchBegin \/ SearchEnd \/ Close
Spec == InitR /\ [][NextR]_vars /\ WF_vars(Reading) /\ WF_vars(Searching)

\* what is being searched is not being filled, and is the next of the file
Disjoint == pc = "searching" /\ task.st \in {"asked", "running"} => task.into # blkbuf
Intact == pc \in {"search", "searching"} => buf[blkbuf] = Slice(off, n)
Prefix == seen = Slice(0, Len(seen)) /\ off = Len(seen)
Whole == pc \in {"close", "done"} => seen = Slice(0, len)
\* an input which cannot be read to its end is not taken for a shorter one
Told == pc \in {"close", "done"} => fault < 0
Heeded == pc = "failed" => fault >= 0 /\ task.st = "failed"
Terminates == <>(pc \in {"done", "failed"})
=============================================================================
