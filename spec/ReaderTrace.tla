----------------------------- MODULE ReaderTrace -----------------------------
(***************************************************************************)
(* Are the events recorded in the program those of Reader?  Events: the    *)
(* inputs of a run, read one after the other; filling of a buffer begins   *)
(* (F) and ends (f) or fails (x); searching begins (S) and ends (s), with the bytes     *)
(* which are then in the buffer; an input's search is closed; the program  *)
(* ends.  What of Reader's order is not needed for its invariants is left  *)
(* open: how far ahead is read, into which of how many buffers, in what    *)
(* pieces, and whether there is a search of nothing.                       *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

Scenarios == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Scenarios)

\* filling: the buffers being filled; searching: that being searched (0: none,
\* -1: memory which no fill was seen in); off: how much was searched
VARIABLES sc, k, bad, files, file, off, filling, searching, filled, bytes, failed
vars == <<files, file, off, filling, searching, filled, bytes, failed>>

S == Scenarios[sc]
Ev == S.ev[k]
F == IF file <= Len(files) THEN files[file] ELSE <<>>

GuardOK(e) ==
  CASE e.t = "inputs" -> TRUE
    [] e.t = "F" -> file <= Len(files) /\ searching # e.buf /\ e.buf \notin filling
    [] e.t = "f" -> e.buf \in filling /\ searching # e.buf /\ filled + e.n <= Len(F)
    [] e.t = "x" -> e.buf \in filling /\ searching # e.buf
    [] e.t = "S" -> /\ file <= Len(files) /\ searching = 0 /\ e.buf \notin filling
                    /\ e.off = off /\ off + Len(e.bytes) <= Len(F)
                    /\ e.bytes = SubSeq(F, off + 1, off + Len(e.bytes))
    [] e.t = "s" -> searching # 0 /\ e.bytes = bytes
    [] e.t = "close" -> searching = 0 /\ file <= Len(files) /\ (off = Len(F) \/ failed)
    [] e.t = "end" -> IF failed THEN e.status # 0 ELSE file = Len(files) + 1 /\ e.status = 0
Effect(e) ==
  CASE e.t = "inputs" -> /\ files' = e.files /\ file' = 1 /\ off' = 0 /\ filling' = {}
                         /\ searching' = 0 /\ filled' = 0 /\ bytes' = <<>> /\ failed' = FALSE
    [] e.t = "F" -> filling' = filling \cup {e.buf} /\ UNCHANGED <<files, file, off, searching, filled, bytes, failed>>
    [] e.t = "f" -> filling' = filling \ {e.buf} /\ filled' = filled + e.n /\ UNCHANGED <<files, file, off, searching, bytes, failed>>
    [] e.t = "x" -> filling' = filling \ {e.buf} /\ failed' = TRUE /\ UNCHANGED <<files, file, off, searching, filled, bytes>>
    [] e.t = "S" -> searching' = (IF e.buf = 0 THEN -1 ELSE e.buf) /\ bytes' = e.bytes /\ UNCHANGED <<files, file, off, filling, filled, failed>>
    [] e.t = "s" -> searching' = 0 /\ off' = off + Len(e.bytes) /\ UNCHANGED <<files, file, filling, filled, bytes, failed>>
    [] e.t = "close" -> file' = file + 1 /\ off' = 0 /\ filled' = 0 /\ UNCHANGED <<files, filling, searching, bytes, failed>>
    [] e.t = "end" -> UNCHANGED vars

TInit == /\ sc = 1 /\ k = 1 /\ bad = 0 /\ files = <<>> /\ file = 1 /\ off = 0
         /\ filling = {} /\ searching = 0 /\ filled = 0 /\ bytes = <<>> /\ failed = FALSE
Step == /\ sc <= N /\ k <= Len(S.ev)
        /\ IF GuardOK(Ev)
           THEN Effect(Ev) /\ sc' = sc /\ k' = k + 1 /\ bad' = bad
           ELSE PrintT(<<"REJECT", S.id, k>>) /\ sc' = sc + 1 /\ k' = 1 /\ bad' = bad + 1 /\ UNCHANGED vars
Done == sc <= N /\ k > Len(S.ev) /\ sc' = sc + 1 /\ k' = 1 /\ bad' = bad /\ UNCHANGED vars
Finish == sc = N + 1 /\ PrintT(<<"CHECKED", N, bad>>) /\ sc' = N + 2 /\ UNCHANGED <<k, bad>> /\ UNCHANGED vars
TNext == Step \/ Done \/ Finish
=============================================================================
