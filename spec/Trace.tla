------------------------------- MODULE Trace -------------------------------
(***************************************************************************)
(* Is what was observed of the real library a behaviour of Lightgrep?      *)
(* The file named by the environment variable TRACE holds one scenario per *)
(* line: [id, ev], ev a sequence of calls with their results.  Each is     *)
(* replayed from the initial state.  Where no action of the specification  *)
(* accounts for a call, it is printed and the next scenario is taken up.   *)
(***************************************************************************)
EXTENDS Tool, Json, IOUtils

Scenarios == TLCEval(ndJsonDeserialize(IOEnv.TRACE))
N == Len(Scenarios)

Facts == TLCEval(JsonDeserialize(IOEnv.FACTS))
TheProps == TLCEval(Facts.props)
TheNames == TLCEval(Facts.names)
TheEncs  == TLCEval(Facts.encs)
TheFold  == TLCEval(Facts.fold)

VARIABLES sc, k, bad
tvars == <<vars, sc, k, bad>>

Ev == Scenarios[sc].ev[k]
Has1(f, x) == x \in DOMAIN f
B(x) == x = 1

\* chains are parsed over and over
Chain(e) == IF e.enc = Null THEN NoChain ELSE ParseChain(e.enc)
PatOf(e) == IF e.p \in DOMAIN pats THEN pats[e.p] ELSE NoPat
ParsedOf(e) == Parsed(e.bytes, B(e.fx), B(e.ci), B(e.un))
ItemsOf(e) == ListItems(e.text, e.encs, B(e.fx), B(e.ci), B(e.un))

\* the hits of a call, numbered by keyword; how many a binding counted
HitsOf(e) == IF "named" \in DOMAIN e THEN [j \in DOMAIN e.hits |-> Numbered(ctxs[e.c], e.hits[j])] ELSE e.hits
CountFits(e) == "counts" \in DOMAIN e => CountsOK(ctxs[e.c], HitsOf(e), e.counts)
MadeOf(e) == [i \in DOMAIN e.kws |-> [bytes |-> e.kws[i].bytes, fx |-> B(e.kws[i].fx), ci |-> B(e.kws[i].ci), un |-> B(e.kws[i].un), encs |-> e.kws[i].encs]]

TableOf(e) == IF e.by = "" THEN fsms[e.f] ELSE IF e.by \in DOMAIN bufs THEN bufs[e.by] ELSE Nothing

GuardOK(e) ==
  CASE e.op = "pat"    -> ParseOK(ParsedOf(e), e.ret, e.err, B(e.want))
    [] e.op = "fsm"    -> TRUE
    [] e.op = "add"    -> AddOK(e.f, PatOf(e), e.enc, Chain(e), e.ret, e.err, B(e.want))
    [] e.op = "finfos" -> InfosOK(fsms[e.f], e.infos)
    [] e.op = "pinfos" -> InfosOK(progs[e.g], e.infos)
    [] e.op = "fcount" -> CountOK(fsms[e.f], e.n)
    [] e.op = "pcount" -> CountOK(progs[e.g], e.n)
    [] e.op = "prog"   -> ProgOK(e.f, e.ok)
    [] e.op = "write"  -> WriteOK(e.g, e.intact)
    [] e.op = "read"   -> ReadOK(e.b, e.ok)
    [] e.op = "readcut" -> e.ok = 0
    [] e.op = "wsame"  -> e.same = 1
    [] e.op = "ctx"    -> e.g \in DOMAIN progs /\ CtxOK(e.g, e.ok)
    [] e.op = "search"  -> SearchOK(e.c, e.b, HitsOf(e), e.ret, B(e.cb)) /\ CountFits(e)
    [] e.op = "weigh"   -> WeighOK(e.c, e.b, e.hits, e.mem, e.size)
    [] e.op = "resolve" -> ResolveOK(e.c, e.b, e.hits, e.ret, B(e.cb))
    [] e.op = "close"   -> CloseOK(e.c, HitsOf(e), B(e.cb)) /\ CountFits(e)
    [] e.op = "reset"   -> ResetOK(e.c)
    [] e.op = "starts"  -> StartsOK(e.c, e.b, HitsOf(e)) /\ CountFits(e)
    [] e.op = "dctx"    -> ResetOK(e.c)
    [] e.op = "plist"   -> AddListOK(e.f, ItemsOf(e), e.src, e.ret, e.err, B(e.want))
    [] e.op = "win"     -> WinOK(Chain(e), e.bytes, e.hb, e.he, e.pre, e.post, e.cps, e.offs, e.dhb, e.dhe, e.bad, Len(e.err))
    [] e.op = "hctx"    -> HctxOK(Chain(e), e.bytes, e.hb, e.he, e.n, e.repl, e.utf8, e.ob, e.oe, e.dhb, e.dhe, e.bad, Len(e.err))
    [] e.op = "dec"     -> TRUE
    [] e.op = "tval"    -> ValidOK(e.ks, e.errl, e.status)
    [] e.op = "tprog"   -> CompileOK(e.f, e.status, e.size)
    [] e.op = "trun"    -> RunOK(TableOf(e), e)
    [] e.op = "tsamp"   -> SamplesOK(fsms[e.f], e)
    [] e.op = "whole"   -> WholeOK(e.c, e.b, HitsOf(e), e.n) /\ CountFits(e)
    [] e.op = "wstart"  -> e.n = Len(e.hits) /\ StartsOK(e.c, e.b, HitsOf(e)) /\ CountFits(e)
    [] e.op = "mk"      -> MakeOK(MadeOf(e), e.ok)
    [] e.op = "gone"    -> e.ok = 0
    [] e.op = "threw"   -> ThrewOK(e.c, e.b, e.hits, e.stop, e.thrown)
    [] e.op = "setidx"  -> SetIdxOK(IF e.h = "f" THEN fsms[e.f] ELSE progs[e.g], e.k, e.ok)
    [] e.op \in {"dprog", "dfsm", "dpat", "dbuf", "ddec"} -> TRUE

Effect(e) ==
  CASE e.op = "pat"    -> ParseUpd(e.p, ParsedOf(e), e.ret)
    [] e.op = "fsm"    -> NewFsmUpd(e.f)
    [] e.op = "add"    -> AddUpd(e.f, PatOf(e), e.enc, Chain(e), e.idx, e.ret)
    [] e.op = "plist"  -> AddListUpd(e.f, ItemsOf(e), e.src, e.err, B(e.want))
    [] e.op = "prog"   -> ProgUpd(e.g, e.f, e.ok)
    [] e.op = "write"  -> WriteUpd(e.b, e.g)
    [] e.op = "read"   -> ReadUpd(e.g, e.b)
    [] e.op = "ctx"    -> CtxUpd(e.c, e.g)
    [] e.op \in {"search", "weigh"} -> SearchUpd(e.c, e.b, HitsOf(e), e.ret, B(e.cb))
    [] e.op = "resolve" -> ResolveUpd(e.c, e.b, e.hits, e.ret, B(e.cb))
    [] e.op = "close"   -> CloseUpd(e.c)
    [] e.op = "reset"   -> ResetUpd(e.c)
    [] e.op = "starts"  -> StartsUpd(e.c)
    [] e.op = "dctx"    -> DropCtxUpd(e.c)
    [] e.op = "dprog"   -> DropProgUpd(e.g)
    [] e.op = "dfsm"    -> DropFsmUpd(e.f)
    [] e.op = "tval"    -> ValidUpd(e.f, e.ks, e.errl)
    [] e.op = "tprog"   -> CompileUpd(e.f, e.b, e.status)
    [] e.op = "dpat"    -> DropPatUpd(e.p)
    [] e.op = "dbuf"    -> DropBufUpd(e.b)
    [] e.op = "threw"   -> ThrewUpd(e.c)
    [] e.op = "setidx"  -> IF e.h = "f" THEN fsms' = [fsms EXCEPT ![e.f] = SetIdx(@, e.k, e.idx, e.ok)] /\ UNCHANGED <<pats, progs, bufs, ctxs>>
                           ELSE progs' = [progs EXCEPT ![e.g] = SetIdx(@, e.k, e.idx, e.ok)] /\ UNCHANGED <<pats, fsms, bufs, ctxs>>
    [] e.op \in {"whole", "wstart"} -> ResetUpd(e.c)
    [] e.op = "mk"      -> MakeUpd(e.g, MadeOf(e), e.ok)
    [] OTHER -> UNCHANGED vars

\* what was expected, for those who read the report
Explain(e) ==
  IF e.op = "whole" THEN LET c == ctxs[e.c] IN [kw \in DOMAIN c.kws |-> <<Reference(c.kws[kw], e.b), OfKw(HitsOf(e), kw)>>]
  ELSE IF e.op = "close" /\ e.c \in DOMAIN ctxs
  THEN LET c == ctxs[e.c] IN [kw \in DOMAIN c.kws |-> <<Reference(c.kws[kw], c.text), Joined(c, HitsOf(e))[kw]>>]
  ELSE IF e.op = "starts" /\ e.c \in DOMAIN ctxs
  THEN LET c == ctxs[e.c] IN [kw \in DOMAIN c.kws |-> <<Reference(c.kws[kw], e.b), OfKw(HitsOf(e), kw)>>]
  ELSE IF e.op = "search" /\ e.c \in DOMAIN ctxs
  THEN LET c == ctxs[e.c] n == Len(c.text) + Len(e.b) IN
       <<"due", LeastDue([c EXCEPT !.hits = Joined(c, HitsOf(e))], c.text \o e.b, 1, n), "returned", e.ret, "sane", Sane(c, n, e.hits)>>
  ELSE IF e.op = "win" THEN LET ch == Chain(e) IN IF ch.ok THEN Windowed(ch, e.bytes, e.hb, e.he, e.pre, e.post) ELSE ch
  ELSE IF e.op = "hctx" THEN LET ch == Chain(e) IN IF ch.ok THEN Windowed(ch, e.bytes, e.hb, e.he, e.n, e.n) ELSE ch
  ELSE IF e.op = "trun" THEN LET t == TableOf(e) fs == Visited(e) IN
       <<[m \in DOMAIN fs |-> <<fs[m].name, [j \in DOMAIN t.kws |-> <<t.infos[j], Refs(t, fs[m].b)[j].hits>>]>>],
         "sorted", Sorted(t, e).ok, [j \in DOMAIN e.rows |-> e.rows[j]]>>
  ELSE IF e.op = "tval" THEN LET r == Load(e.ks, e.errl) IN <<r.i, Len(e.errl), r.t.infos>>
  ELSE IF e.op = "plist" THEN LET r == ListFrom(ItemsOf(e), 1, e.src, e.err, 1, fsms[e.f]) IN <<r.i, Len(e.err), r.t.infos>>
  ELSE <<>>

TInit == Init /\ sc = 1 /\ k = 1 /\ bad = 0

Fresh0 == pats' = Empties /\ fsms' = Empties /\ progs' = Empties /\ bufs' = Empties /\ ctxs' = Empties
NextScenario == Fresh0 /\ sc' = sc + 1 /\ k' = 1

Step == /\ sc <= N /\ k <= Len(Scenarios[sc].ev)
        /\ IF GuardOK(Ev)
           THEN Effect(Ev) /\ sc' = sc /\ k' = k + 1 /\ bad' = bad
           ELSE /\ PrintT(<<"REJECT", Scenarios[sc].id, k>>)
                /\ (IOEnv.EXPLAIN = "1" => PrintT(<<"EXPLAIN", Explain(Ev)>>))
                /\ NextScenario /\ bad' = bad + 1
Done == sc <= N /\ k > Len(Scenarios[sc].ev) /\ NextScenario /\ bad' = bad
Finish == sc = N + 1 /\ PrintT(<<"CHECKED", N, bad>>) /\ sc' = N + 2 /\ UNCHANGED <<vars, k, bad>>
TNext == Step \/ Done \/ Finish
=============================================================================
