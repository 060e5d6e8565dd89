------------------------------- MODULE Calls -------------------------------
(***************************************************************************)
(* Which calls may be made when, and what each may return, leaving open    *)
(* what is matched: the lives of the library's objects.  A user may make   *)
(* objects and drop them in any order but this: a program outlives its     *)
(* contexts, and the memory that a program was read from outlives it.      *)
(* Inputs are anything at all, so only classes of them occur here.         *)
(*                                                                         *)
(* TLC draws histories from Next, which are then carried out with inputs   *)
(* of those classes; CallsTrace has TLC decide what came of them.          *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, Json, IOUtils

VARIABLES pats,   \* pattern -> was it parsed?
          fsms,   \* FSM -> number of keywords; it may be compiled, and added to, again and again
          progs,  \* program -> number of keywords, and the buffer it was read from
          bufs,   \* buffer -> number of keywords of the program within
          ctxs,   \* context -> its program, what was searched, and is it being used by the book?
          decs,   \* decoders
          log     \* the calls so far, where they are drawn
vars == <<pats, fsms, progs, bufs, ctxs, decs>>

Empties == [x \in {} |-> 0]
Init == pats = Empties /\ fsms = Empties /\ progs = Empties /\ bufs = Empties /\ ctxs = Empties /\ decs = {} /\ log = <<>>

Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]

\* an error is reported where, and only where, a call fails
Told(e, failed) == (failed /\ e.want = 1) = (e.nerr > 0)

Users(g) == {c \in DOMAIN ctxs : ctxs[c].g = g}
Readers(b) == {g \in DOMAIN progs : progs[g].b = b}

\* ---- may the call be made? ------------------------------------------------
May(e) ==
  CASE e.op = "fsm"  -> e.f \notin DOMAIN fsms
    [] e.op \in {"pat", "ids"} -> TRUE
    [] e.op = "add"  -> TRUE
    [] e.op \in {"plist", "fcount", "finfos", "dfsm"} -> e.f \in DOMAIN fsms
    [] e.op = "prog" -> e.g \notin DOMAIN progs /\ e.f \in DOMAIN fsms
    [] e.op \in {"pcount", "pinfos"} -> e.g \in DOMAIN progs
    [] e.op = "write" -> e.g \in DOMAIN progs /\ Readers(e.b) = {}
    [] e.op = "read" -> e.g \notin DOMAIN progs /\ e.b \in DOMAIN bufs
    [] e.op = "readcut" -> e.b \in DOMAIN bufs
    [] e.op = "ctx"  -> e.c \notin DOMAIN ctxs /\ e.g \in DOMAIN progs
    [] e.op \in {"search", "resolve", "starts", "close", "reset", "dctx"} -> e.c \in DOMAIN ctxs
    [] e.op = "dprog" -> e.g \in DOMAIN progs /\ Users(e.g) = {}
    [] e.op = "dpat" -> e.p \in DOMAIN pats
    [] e.op = "dbuf" -> e.b \in DOMAIN bufs /\ Readers(e.b) = {}
    [] e.op = "dec" -> e.d \notin decs
    [] e.op \in {"win", "hctx", "ddec"} -> e.d \in decs
    [] e.op = "end" -> TRUE

\* ---- may it return this? --------------------------------------------------
\* Within a stream: all of it is searched, piece by piece, until it is closed
\* or resolved. Anything else that is done without a reset in between is
\* harmless, but the hits need not make sense.
InOrder(e) == LET c == ctxs[e.c] IN c.way = "new" \/ (c.way = "on" /\ e.off = c.to)
Tame(c, kwn, from, to, hits) ==
  \A i \in DOMAIN hits : LET h == hits[i] IN h[3] >= 0 /\ h[3] < kwn /\ from <= h[1] /\ h[1] < h[2] /\ h[2] <= to
ByKeyword(hits) ==     \* none starts within, or before, the one before
  \A i, j \in DOMAIN hits : (i < j /\ hits[i][3] = hits[j][3]) => hits[i][2] <= hits[j][1]
HitsFit(e) ==
  LET c == ctxs[e.c]
      from == IF c.way = "new" \/ e.op = "starts" THEN e.off ELSE c.from
      n == c.n
  IN  /\ e.cb = 0 => e.hits = <<>>
      /\ CASE e.op = "starts" -> \A i \in DOMAIN e.hits : /\ e.hits[i][3] \in 0..n - 1
                                                          /\ c.way = "new" => e.hits[i][1] = e.off /\ e.hits[i][2] > e.off /\ e.hits[i][2] <= e.off + e.len
           [] e.op = "close" -> IF c.way = "odd" THEN \A i \in DOMAIN e.hits : e.hits[i][3] \in 0..n - 1
                                ELSE IF c.way = "new" THEN e.hits = <<>>
                                ELSE Tame(c, n, c.from, c.to, e.hits) /\ ByKeyword(e.hits)
           [] OTHER -> IF InOrder(e) THEN Tame(c, n, from, e.off + e.len, e.hits) /\ ByKeyword(e.hits)
                       ELSE \A i \in DOMAIN e.hits : e.hits[i][3] \in 0..n - 1
RetFits(e) == InOrder(e) => e.ret <= e.off + e.len /\ e.ret >= IF ctxs[e.c].way = "new" THEN e.off ELSE ctxs[e.c].from

WindowFits(e) ==
  /\ e.nerr = 0 => /\ 0 <= e.bad /\ e.bad <= e.len /\ e.n >= 0
                   /\ 0 <= e.hb /\ e.hb <= e.he
                   /\ e.lo >= 0 /\ e.lo <= e.hi /\ e.hi <= e.len

Fits(e) ==
  CASE e.op = "fsm"  -> e.ok = 1
    [] e.op = "pat"  -> e.ret \in {0, 1} /\ Told(e, e.ret = 0) /\ e.nerr <= 1
    [] e.op = "add"  -> /\ Told(e, e.ret < 0) /\ e.nerr <= 1
                        /\ e.ret >= 0 => /\ e.f \in DOMAIN fsms /\ e.p \in DOMAIN pats
                                         /\ pats[e.p] /\ e.ret = fsms[e.f]
    [] e.op = "plist" -> Told(e, e.ret < 0) /\ e.n >= fsms[e.f] /\ e.ret <= 0
    [] e.op \in {"fcount", "finfos"} -> e.n = fsms[e.f]
    [] e.op \in {"pcount", "pinfos"} -> e.n = progs[e.g].n
    [] e.op = "prog" -> e.ok = 1 \/ fsms[e.f] = 0     \* there may be nothing to search for
    [] e.op = "write" -> e.intact = 1
    [] e.op = "read" -> e.ok = 1
    [] e.op = "readcut" -> e.ok = 0
    [] e.op = "ctx"  -> e.ok = 1
    [] e.op \in {"search", "resolve"} -> HitsFit(e) /\ RetFits(e)
    [] e.op \in {"starts", "close"} -> HitsFit(e)
    [] e.op \in {"win", "hctx"} -> Told(e, e.nerr > 0) /\ WindowFits(e)
    [] e.op = "ids" -> e.lo >= -1
    [] e.op = "end" -> e.lost = 0       \* all that was taken has been given back
    [] OTHER -> TRUE

\* ---- and then? ------------------------------------------------------------
Do(e) ==
  CASE e.op = "fsm"  -> fsms' = Set(fsms, e.f, 0) /\ UNCHANGED <<pats, progs, bufs, ctxs, decs>>
    [] e.op = "pat"  -> pats' = Set(pats, e.p, e.ret = 1) /\ UNCHANGED <<fsms, progs, bufs, ctxs, decs>>
    [] e.op = "add"  -> /\ fsms' = IF e.ret < 0 THEN fsms ELSE [fsms EXCEPT ![e.f] = @ + 1]
                        /\ UNCHANGED <<pats, progs, bufs, ctxs, decs>>
    [] e.op = "plist" -> fsms' = [fsms EXCEPT ![e.f] = e.n] /\ UNCHANGED <<pats, progs, bufs, ctxs, decs>>
    [] e.op = "prog" -> /\ progs' = IF e.ok = 1 THEN Set(progs, e.g, [n |-> fsms[e.f], b |-> ""]) ELSE progs
                        /\ UNCHANGED <<pats, fsms, bufs, ctxs, decs>>
    [] e.op = "write" -> bufs' = Set(bufs, e.b, progs[e.g].n) /\ UNCHANGED <<pats, fsms, progs, ctxs, decs>>
    [] e.op = "read" -> progs' = Set(progs, e.g, [n |-> bufs[e.b], b |-> e.b]) /\ UNCHANGED <<pats, fsms, bufs, ctxs, decs>>
    [] e.op = "ctx"  -> /\ ctxs' = Set(ctxs, e.c, [g |-> e.g, n |-> progs[e.g].n, way |-> "new", from |-> 0, to |-> 0])
                        /\ UNCHANGED <<pats, fsms, progs, bufs, decs>>
    [] e.op = "search" -> /\ ctxs' = [ctxs EXCEPT ![e.c] = IF ~InOrder(e) THEN [@ EXCEPT !.way = "odd"]
                                        ELSE [@ EXCEPT !.way = "on", !.from = (IF ctxs[e.c].way = "new" THEN e.off ELSE @), !.to = e.off + e.len]]
                          /\ UNCHANGED <<pats, fsms, progs, bufs, decs>>
    [] e.op \in {"resolve", "close"} -> ctxs' = [ctxs EXCEPT ![e.c].way = IF @ = "new" /\ e.op = "close" THEN "new" ELSE "odd"] /\ UNCHANGED <<pats, fsms, progs, bufs, decs>>
    [] e.op = "reset" -> ctxs' = [ctxs EXCEPT ![e.c].way = "new"] /\ UNCHANGED <<pats, fsms, progs, bufs, decs>>
    [] e.op = "starts" -> ctxs' = [ctxs EXCEPT ![e.c].way = IF @ = "new" THEN "new" ELSE "odd"] /\ UNCHANGED <<pats, fsms, progs, bufs, decs>>
    [] e.op = "dctx" -> ctxs' = Del(ctxs, e.c) /\ UNCHANGED <<pats, fsms, progs, bufs, decs>>
    [] e.op = "dprog" -> progs' = Del(progs, e.g) /\ UNCHANGED <<pats, fsms, bufs, ctxs, decs>>
    [] e.op = "dpat" -> pats' = Del(pats, e.p) /\ UNCHANGED <<fsms, progs, bufs, ctxs, decs>>
    [] e.op = "dfsm" -> fsms' = Del(fsms, e.f) /\ UNCHANGED <<pats, progs, bufs, ctxs, decs>>
    [] e.op = "dbuf" -> bufs' = Del(bufs, e.b) /\ UNCHANGED <<pats, fsms, progs, ctxs, decs>>
    [] e.op = "dec"  -> decs' = decs \cup {e.d} /\ UNCHANGED <<pats, fsms, progs, bufs, ctxs>>
    [] e.op = "ddec" -> decs' = decs \ {e.d} /\ UNCHANGED <<pats, fsms, progs, bufs, ctxs>>
    [] OTHER -> UNCHANGED vars

\* ---- the model ------------------------------------------------------------
\* Histories of calls which all go well, on inputs of some class (in).
Depth == IF "DEPTH" \in DOMAIN IOEnv THEN atoi(IOEnv.DEPTH) ELSE 0   \* how long they are; 0 to explore the states only
Some(few, many) == IF Depth = 0 THEN few ELSE many
Ps == Some({"p"}, {"p", "q"})
Fs == Some({"f"}, {"f", "h"})
Gs == {"g", "k"}
Bs == Some({"b"}, {"b", "d"})
Cs == Some({"c"}, {"c", "e", "x"})
Ds == Some({"u"}, {"u", "v"})
Call(e) == May(e) /\ Fits(e) /\ Do(e) /\ log' = IF Depth = 0 THEN log ELSE Append(log, e)

Pat == \E p \in Ps, in \in {"sane", "sane2", "sane3", "soup", "bytes", "deep", "reps"} :
         Call([op |-> "pat", p |-> p, in |-> in, want |-> 1, ret |-> 1, nerr |-> 0])
Fsm == \E f \in Fs : Call([op |-> "fsm", f |-> f, ok |-> 1])
Add == \E f \in Fs, p \in Ps, in \in {"sane", "sane2", "chain", "bytes"} :
         LET can == f \in DOMAIN fsms /\ p \in DOMAIN pats IN
         Call([op |-> "add", f |-> f, p |-> p, in |-> in, want |-> 1, ret |-> IF can THEN fsms[f] ELSE -1, nerr |-> IF can THEN 0 ELSE 1])
List == \E f \in DOMAIN fsms, in \in {"sane", "soup", "bytes"} :
         Call([op |-> "plist", f |-> f, in |-> in, want |-> 1, ret |-> 0, nerr |-> 0, n |-> fsms[f] + 1])
Prog == \E g \in Gs, f \in DOMAIN fsms, in \in {"sane", "zero", "full"} : Call([op |-> "prog", g |-> g, f |-> f, in |-> in, ok |-> 1])
Ask == \/ \E f \in DOMAIN fsms, o \in {"fcount", "finfos"} : Call([op |-> o, f |-> f, n |-> fsms[f]])
       \/ \E g \in DOMAIN progs, o \in {"pcount", "pinfos"} : Call([op |-> o, g |-> g, n |-> progs[g].n])
Write == \E b \in Bs, g \in DOMAIN progs : Call([op |-> "write", b |-> b, g |-> g, intact |-> 1])
Read == \/ \E b \in DOMAIN bufs, g \in Gs : Call([op |-> "read", g |-> g, b |-> b, ok |-> 1])
        \/ \E b \in DOMAIN bufs : Call([op |-> "readcut", b |-> b, ok |-> 0])
Ctx == \E c \in Cs, g \in DOMAIN progs : Call([op |-> "ctx", c |-> c, g |-> g, ok |-> 1])
\* at: where in its stream the text is said to be
Search == \E c \in DOMAIN ctxs, o \in {"search", "resolve"}, in \in {"text", "hit", "empty"}, at \in {"next", "odd"} :
            LET off == IF at = "odd" THEN 7 ELSE ctxs[c].to IN
            Call([op |-> o, c |-> c, in |-> in, at |-> at, cb |-> 1, hits |-> <<>>, off |-> off, len |-> IF Depth = 0 THEN 0 ELSE 1, ret |-> off])
Feed == \E c \in DOMAIN ctxs, in \in {"text", "hit"} :
            Call([op |-> "search", c |-> c, in |-> in, at |-> "next", cb |-> 1, hits |-> <<>>, off |-> ctxs[c].to, len |-> IF Depth = 0 THEN 0 ELSE 1, ret |-> ctxs[c].to])
Close == \E c \in DOMAIN ctxs : Call([op |-> "close", c |-> c, cb |-> 1, hits |-> <<>>])
Starts == \E c \in DOMAIN ctxs, in \in {"text", "hit", "empty"} :
            Call([op |-> "starts", c |-> c, in |-> in, cb |-> 1, hits |-> <<>>, off |-> 0, len |-> 1])
Reset == \E c \in DOMAIN ctxs : Call([op |-> "reset", c |-> c])
Drop == \/ \E c \in DOMAIN ctxs : Call([op |-> "dctx", c |-> c])
        \/ \E g \in DOMAIN progs : Call([op |-> "dprog", g |-> g])
        \/ \E p \in DOMAIN pats : Call([op |-> "dpat", p |-> p])
        \/ \E f \in DOMAIN fsms : Call([op |-> "dfsm", f |-> f])
        \/ \E b \in DOMAIN bufs : Call([op |-> "dbuf", b |-> b])
        \/ \E d \in decs : Call([op |-> "ddec", d |-> d])
Dec == \E d \in Ds : Call([op |-> "dec", d |-> d])
Window == \E d \in decs, o \in {"win", "hctx"}, in \in {"sane", "bytes", "empty"}, enc \in {"sane", "chain", "bytes"}, w \in {"small", "small2", "big", "vast"} :
            Call([op |-> o, d |-> d, in |-> in, enc |-> enc, size |-> w, want |-> 1, nerr |-> 0, bad |-> 0, n |-> 0, len |-> 0, hb |-> 0, he |-> 0, lo |-> 0, hi |-> 0])
Ids == \E in \in {"sane", "bytes"} : Call([op |-> "ids", in |-> in, lo |-> 0])
Kinds == 1..21
Kind(x) ==
  CASE x = 1 -> Pat [] x = 2 -> Fsm [] x \in {3, 4} -> Add [] x = 5 -> List [] x \in {6, 7} -> Prog [] x = 8 -> Ask
    [] x = 9 -> Write [] x = 10 -> Read [] x \in {11, 12} -> Ctx [] x = 13 -> Search [] x \in {14, 15} -> Feed
    [] x = 16 -> Close [] x = 17 -> Starts [] x = 18 -> Reset [] x = 19 -> Drop [] x = 20 -> Dec \/ Ids [] x = 21 -> Window
Next ==
  IF Depth = 0 THEN \E x \in Kinds : Kind(x)
  ELSE IF Len(log) < Depth THEN Kind(RandomElement(Kinds)) \/ (UNCHANGED <<vars, log>>)   \* drawn with -simulate
  ELSE /\ Len(log) = Depth
       /\ PrintT(<<"HISTORY", ToJson(log)>>)
       /\ log' = Append(log, 0) /\ UNCHANGED vars

\* a program outlives those who use it, and so does the memory it was read from
Lives == /\ \A c \in DOMAIN ctxs : ctxs[c].g \in DOMAIN progs /\ ctxs[c].n = progs[ctxs[c].g].n
         /\ \A g \in DOMAIN progs : progs[g].b # "" => progs[g].b \in DOMAIN bufs

Few == Depth > 0 \/ \A f \in DOMAIN fsms : fsms[f] < 2
=============================================================================
