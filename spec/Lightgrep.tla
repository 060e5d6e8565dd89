----------------------------- MODULE Lightgrep -----------------------------
(***************************************************************************)
(* The library as a state machine.  The objects a user holds (patterns,    *)
(* FSMs, programs, buffers with serialized programs, search contexts) are  *)
(* the state; each call of the API is an action.  What a call returns is a *)
(* parameter of its action, so that the action both constrains the result  *)
(* and says what becomes of the objects.                                   *)
(*                                                                         *)
(* For each action A there are an operator AOK, its guard, and AUpd, its   *)
(* effect; A == AOK /\ AUpd.  The model checker explores A, the trace      *)
(* checker evaluates the guard on what was observed, then the effect.      *)
(*                                                                         *)
(* Offsets within a stream are relative to the stream's first byte.        *)
(***************************************************************************)
EXTENDS Match

VARIABLES pats,   \* handle -> what was parsed
          fsms,   \* handle -> keywords and their table
          progs,  \* handle -> the same, compiled
          bufs,   \* handle -> the program serialized there
          ctxs    \* handle -> a search

vars == <<pats, fsms, progs, bufs, ctxs>>

Empties == [x \in {} |-> 0]
Init == pats = Empties /\ fsms = Empties /\ progs = Empties /\ bufs = Empties /\ ctxs = Empties

Set(f, k, v) == [x \in DOMAIN f \cup {k} |-> IF x = k THEN v ELSE f[x]]
Del(f, k)    == [x \in DOMAIN f \ {k} |-> f[x]]

\* ---- patterns ------------------------------------------------------------
\* err: the errors which the call reported, each [msg, pat, enc, src, idx], as
\* sequences of bytes (<<-1>> for a null pointer)
Null == <<-1>>
CStr(b) == LET z == {k \in DOMAIN b : b[k] = 0} IN
           IF z = {} THEN b ELSE SubSeq(b, 1, (CHOOSE k \in z : \A j \in z : k <= j) - 1)
OneErr(err, want) ==    \* exactly one error, if errors are taken at all
  ~want \/ (Len(err) = 1 /\ err[1].msg # Null /\ err[1].msg # <<>>)

\* some class of the tree may turn out to be empty, which cannot be decided here
RECURSIVE Unsure(_)
Unsure(x) ==
  CASE x.t \in {"cat", "alt"} -> Unsure(x.l) \/ Unsure(x.r)
    [] x.t = "rep" -> Unsure(x.x)
    [] x.t = "cls" -> x.dead \/ x.odd \/ (x.add /\ x.b = {} /\ Empty(x.s) = "maybe")
    [] OTHER -> FALSE

Parsed(bytes, fx, ci, un) ==
  LET r == Parse(bytes, fx, ci, un)
  IN  IF r.ok THEN [st |-> "ok", tree |-> r.node, bytes |-> CStr(bytes)]
              ELSE [st |-> "bad", tree |-> 0, bytes |-> CStr(bytes)]
\* A failed parse leaves nothing to be added. A pattern with an assertion may
\* be turned down later.
ParseOK(r, ret, err, want) ==
  /\ ret \in {0, 1}
  /\ ret = 1 => Len(err) = 0
  /\ ret = 0 => OneErr(err, want) /\ (want => err[1].pat = r.bytes)
  /\ (r.st = "ok" /\ ~Unsure(r.tree)) => ret = 1
ParseUpd(p, r, ret) ==
  /\ pats' = Set(pats, p, IF ret = 1 THEN r ELSE [r EXCEPT !.st = "bad"])
  /\ UNCHANGED <<fsms, progs, bufs, ctxs>>

\* ---- keywords ------------------------------------------------------------
NewFsmUpd(f) == fsms' = Set(fsms, f, [kws |-> <<>>, infos |-> <<>>]) /\ UNCHANGED <<pats, progs, bufs, ctxs>>

\* may keyword x be added?
CanAdd(pat, chain) ==
  IF pat.st # "ok" \/ ~chain.ok THEN "no"
  ELSE IF Unsure(pat.tree) THEN (IF Addable(pat.tree, chain) = "no" THEN "no" ELSE "maybe")
  ELSE Addable(pat.tree, chain)

Kw(pat, chain) == [tree |-> pat.tree, chain |-> chain]
Info(pat, enc, uidx) == [pat |-> pat.bytes, enc |-> enc, idx |-> uidx]

NoPat == [st |-> "none"]
AddOK(f, pat, encb, chain, ret, err, want) ==
  IF f \notin DOMAIN fsms \/ pat.st = "none" \/ encb = Null
  THEN ret < 0 /\ OneErr(err, want)
  ELSE LET can == CanAdd(pat, chain) IN
       /\ can = "yes" => ret >= 0
       /\ can = "no" => ret < 0
       /\ ret >= 0 => ret = Len(fsms[f].kws) /\ Len(err) = 0
       /\ ret < 0 => OneErr(err, want) /\ (want => err[1].pat = pat.bytes /\ err[1].enc = encb)
AddUpd(f, pat, encb, chain, uidx, ret) ==
  /\ fsms' = IF ret < 0 THEN fsms
             ELSE [fsms EXCEPT ![f] = [kws |-> Append(@.kws, Kw(pat, chain)),
                                       infos |-> Append(@.infos, Info(pat, encb, uidx))]]
  /\ UNCHANGED <<pats, progs, bufs, ctxs>>

\* ---- keyword lists -------------------------------------------------------
\* One keyword per line: pattern, encodings, and whether it is literal, ignores
\* case and is in Unicode mode, separated by tabs.  All but the pattern have
\* defaults.  Empty lines and columns do not count.
Dig == {<<48>>, <<49>>}
ListItem(cols, lnum, defs, fx, ci, un) ==
  LET n == Len(cols)
      encs == IF n < 2 THEN defs ELSE Split(cols[2], {44}, <<>>, <<>>)
      opt(k, d) == IF n < k THEN d ELSE cols[k] = <<49>>
      base == [pat |-> IF n = 0 THEN Null ELSE CStr(cols[1]), lnum |-> lnum]
  IN  IF n = 0 \/ (encs = <<>> /\ n >= 2) \/ \E k \in 3..(IF n < 5 THEN n ELSE 5) : cols[k] \notin Dig
      THEN [kind |-> "error", base |-> base]
      ELSE [kind |-> "keyword", base |-> base, encs |-> encs,
            parsed |-> Parsed(cols[1], opt(3, fx), opt(4, ci), opt(5, un))]
ListItems(text, defs, fx, ci, un) ==
  LET ls == Split(CStr(text), {10, 13}, <<>>, <<>>) IN
  [k \in DOMAIN ls |-> ListItem(Split(ls[k], {9}, <<>>, <<>>), k - 1, defs, fx, ci, un)]

\* an error printed: [SOURCE, ]pattern INDEX PATTERN ENCODING: MESSAGE
RECURSIVE Decimal(_)
Decimal(n) == IF n < 10 THEN <<48 + n>> ELSE Append(Decimal(n \div 10), 48 + (n % 10))
OrNo(b) == IF b = Null THEN <<>> ELSE b
LineAt(line, base, enc, src) ==
  LET pre == (IF src = Null THEN <<>> ELSE src \o <<44, 32>>) \o <<112, 97, 116, 116, 101, 114, 110, 32>> \o Decimal(base.lnum)
               \o <<32>> \o OrNo(base.pat) \o <<32>> \o OrNo(enc) \o <<58, 32>>
  IN  Len(line) > Len(pre) /\ SubSeq(line, 1, Len(pre)) = pre
ErrAt(err, i, base, enc, src) ==
  i <= Len(err) /\ IF "line" \in DOMAIN err[i] THEN LineAt(err[i].line, base, enc, src) ELSE
  /\ err[i].pat = base.pat /\ err[i].enc = enc /\ err[i].src = src
  /\ err[i].idx = base.lnum /\ err[i].msg # Null /\ err[i].msg # <<>>
Words(n) == <<0, 0, n \div 65536, n % 65536>>

\* t: the keywords; i: the next error; the result has i = 0 if the errors are wrong
RECURSIVE ListEncs(_, _, _, _, _, _)
ListEncs(item, k, src, err, i, t) ==
  IF i = 0 \/ k > Len(item.encs) THEN [i |-> i, t |-> t]
  ELSE LET e == item.encs[k]
           ch == ParseChain(e)
           can == CanAdd(item.parsed, ch)
           hit == ErrAt(err, i, item.base, e, src)
       IN  IF can = "no" \/ (can = "maybe" /\ hit)
           THEN ListEncs(item, k + 1, src, err, IF hit THEN i + 1 ELSE 0, t)
           ELSE ListEncs(item, k + 1, src, err, i,
                  [kws |-> Append(t.kws, Kw(item.parsed, ch)),
                   infos |-> Append(t.infos, Info(item.parsed, e, Words(item.base.lnum)))])
RECURSIVE ListFrom(_, _, _, _, _, _)
ListFrom(items, k, src, err, i, t) ==
  IF i = 0 \/ k > Len(items) THEN [i |-> i, t |-> t]
  ELSE LET x == items[k]
           hit == ErrAt(err, i, x.base, Null, src)
       IN  IF x.kind = "error" THEN ListFrom(items, k + 1, src, err, IF hit THEN i + 1 ELSE 0, t)
           ELSE IF hit /\ (x.parsed.st # "ok" \/ Unsure(x.parsed.tree))
           THEN ListFrom(items, k + 1, src, err, i + 1, t)
           ELSE LET r == ListEncs(x, 1, src, err, i, t) IN ListFrom(items, k + 1, src, err, r.i, r.t)

\* Without errors to go by, what may be refused counts as accepted.
RECURSIVE Quiet(_, _)
QuietEnc(item, e) == LET can == CanAdd(item.parsed, ParseChain(e)) IN can # "no"
Quiet(items, t) ==
  IF items = <<>> THEN t
  ELSE LET x == Head(items)
           es == IF x.kind = "error" THEN <<>> ELSE SelectSeq(x.encs, LAMBDA e : QuietEnc(x, e))
       IN  Quiet(Tail(items),
             [kws |-> t.kws \o [j \in DOMAIN es |-> Kw(x.parsed, ParseChain(es[j]))],
              infos |-> t.infos \o [j \in DOMAIN es |-> Info(x.parsed, es[j], Words(x.base.lnum))]])
Refused(items) == \E k \in DOMAIN items :
  items[k].kind = "error" \/ \E j \in DOMAIN items[k].encs : ~QuietEnc(items[k], items[k].encs[j])

AddListOK(f, items, src, ret, err, want) ==
  IF want
  THEN /\ ListFrom(items, 1, src, err, 1, fsms[f]).i = Len(err) + 1
       /\ ret = IF err = <<>> THEN 0 ELSE -1
  ELSE /\ err = <<>> /\ ret \in {0, -1}
       /\ Refused(items) => ret = -1
AddListUpd(f, items, src, err, want) ==
  /\ fsms' = [fsms EXCEPT ![f] = IF want THEN ListFrom(items, 1, src, err, 1, @).t ELSE Quiet(items, @)]
  /\ UNCHANGED <<pats, progs, bufs, ctxs>>

\* ---- programs ------------------------------------------------------------
\* A program is a copy: what happens to the FSM later does not affect it.
\* There is no program without keywords.
ProgOK(f, ok) == ok = IF Len(fsms[f].kws) > 0 THEN 1 ELSE 0
ProgUpd(g, f, ok) == /\ progs' = IF ok = 1 THEN Set(progs, g, fsms[f]) ELSE progs
                     /\ UNCHANGED <<pats, fsms, bufs, ctxs>>

InfosOK(t, infos) == infos = t.infos
CountOK(t, n) == n = Len(t.infos)

\* Serialization: what is read back is what was written, a buffer which is cut
\* short is refused, and writing writes nothing past the size announced.
WriteOK(g, intact) == intact = 1
WriteUpd(b, g) == bufs' = Set(bufs, b, progs[g]) /\ UNCHANGED <<pats, fsms, progs, ctxs>>
ReadOK(b, ok) == ok = 1
ReadUpd(g, b) == progs' = Set(progs, g, bufs[b]) /\ UNCHANGED <<pats, fsms, bufs, ctxs>>

\* ---- searches ------------------------------------------------------------
\* phase: fresh, search, resolved or closed.  text is what was searched so
\* far; cut is the length of text at which hits ceased to begin; hits[k] are
\* the hits of keyword k reported so far; those which end by lost may have gone
\* to no callback; ret is the offset last returned.
NoCut == 1000000000
Fresh(t) == [kws |-> t.kws, infos |-> t.infos, phase |-> "fresh", text |-> <<>>, cut |-> NoCut,
             lost |-> 0, hits |-> [k \in DOMAIN t.kws |-> <<>>], ret |-> 0]

CtxOK(g, ok) == ok = 1
CtxUpd(c, g) == ctxs' = Set(ctxs, c, Fresh(progs[g])) /\ UNCHANGED <<pats, fsms, progs, bufs>>

\* hits: sequence of <<start, end, keyword (from 0)>>
OfKw(hits, k) ==
  LET mine == SelectSeq(hits, LAMBDA h : h[3] = k - 1)
  IN  [j \in DOMAIN mine |-> <<mine[j][1], mine[j][2]>>]
Joined(c, hits) == [k \in DOMAIN c.kws |-> c.hits[k] \o OfKw(hits, k)]
Ascending(s) == \A j \in 1..(Len(s) - 1) : s[j][2] <= s[j+1][1]
\* hits make sense at all, once n bytes were searched
Sane(c, n, hits) ==
  /\ \A j \in DOMAIN hits : /\ hits[j][3] + 1 \in DOMAIN c.kws
                            /\ c.ret <= hits[j][1] /\ hits[j][1] < hits[j][2] /\ hits[j][2] <= n
                            /\ hits[j][1] < c.cut
  /\ LET all == Joined(c, hits) IN \A k \in DOMAIN all : Ascending(all[k])

\* The hits of a keyword in a whole text; [sure, hits, ends]
Reference(kw, b) ==
  LET D == Decode(kw.chain, b)
      E == Ends(kw.tree, D, b)
  IN  [sure |-> ~Vague(kw.tree) /\ ~VagueOn(kw.tree, D, b) /\ ~Odd(kw.tree), odd |-> Odd(kw.tree), ends |-> E, hits |-> Scan(E, Len(b), 1, <<>>)]

SomeWay(r, n, got) == r.odd \/ SomeScan(r.ends, n, 1, got, 1)

Before(s, cut) == SelectSeq(s, LAMBDA h : h[1] < cut)
\* got is want without some of those hits which end by lost
RECURSIVE Lossy(_, _, _, _, _)
Lossy(want, i, got, j, lost) ==
  IF i > Len(want) THEN j > Len(got)
  ELSE IF j <= Len(got) /\ want[i] = got[j] THEN Lossy(want, i + 1, got, j + 1, lost)
  ELSE want[i][2] <= lost /\ Lossy(want, i + 1, got, j, lost)
RECURSIVE LossyPrefix(_, _, _, _, _)
LossyPrefix(want, i, got, j, lost) ==
  IF j > Len(got) THEN TRUE
  ELSE IF i > Len(want) THEN FALSE
  ELSE IF want[i] = got[j] THEN LossyPrefix(want, i + 1, got, j + 1, lost)
  ELSE want[i][2] <= lost /\ LossyPrefix(want, i + 1, got, j, lost)

\* all are all the hits which keyword k of c will ever report
Complete(c, k, all) ==
  LET r == Reference(c.kws[k], c.text) IN
  IF r.sure THEN Lossy(Before(r.hits, c.cut), 1, all, 1, c.lost)
  ELSE (c.lost = 0 /\ c.cut = NoCut) => SomeWay(r, Len(c.text), all)
\* c is given up: nothing wrong was reported
Prefix(c, k) ==
  c.hits[k] = <<>> \/
  LET r == Reference(c.kws[k], c.text) IN
  r.sure => LossyPrefix(Before(r.hits, c.cut), 1, c.hits[k], 1, c.lost)

\* The offset returned is the least at which a hit could still begin. A matcher
\* which follows the pattern closely knows no less than this.
RECURSIVE LeastDue(_, _, _, _)
LeastDue(c, b, k, acc) ==
  IF k > Len(c.kws) THEN acc
  ELSE IF Odd(c.kws[k].tree) THEN 0
  ELSE LET kw == c.kws[k]
           from == IF c.hits[k] = <<>> THEN 0 ELSE c.hits[k][Len(c.hits[k])][2]
           p == Pending(kw.tree, kw.chain, Decode(kw.chain, b), b, from)
       IN  LeastDue(c, b, k + 1, IF p < acc THEN p ELSE acc)

\* lg_search: b is the buffer; cb is FALSE if there was no callback
SearchOK(x, b, hits, ret, cb) ==
  LET c == ctxs[x] n == Len(c.text) + Len(b) IN
  /\ Sane(c, n, hits)
  /\ (~cb => hits = <<>>)
  /\ c.ret <= ret /\ ret <= n
  /\ LET b2 == c.text \o b IN
     ret >= LeastDue([c EXCEPT !.hits = Joined(c, hits)], b2, 1, n)
\* What a search keeps, in units of 1024 bytes, is in proportion to the size of
\* the program and to what has been searched: for each byte at which a hit might
\* have begun, and each place in the program, something of constant size.
FilterSize == 8192
PerPlace   == 192
Kept(size, n) == (((size - FilterSize) \div 4) * PerPlace * (n + 2)) \div 1024 + 4
\* A search of which only that is to be known
WeighOK(x, b, hits, mem, size) ==
  LET n == Len(ctxs[x].text) + Len(b) IN Sane(ctxs[x], n, hits) /\ mem <= Kept(size, n)
SearchUpd(x, b, hits, ret, cb) ==
  LET c == ctxs[x] n == Len(c.text) + Len(b) IN
  /\ ctxs' = [ctxs EXCEPT ![x] = [c EXCEPT !.phase = "search", !.text = @ \o b, !.ret = ret,
                 !.hits = Joined(c, hits), !.lost = IF cb THEN @ ELSE n]]
  /\ UNCHANGED <<pats, fsms, progs, bufs>>

\* lg_search_resolve: no more hits begin, those which have begun are pursued
ResolveOK(x, b, hits, ret, cb) ==
  LET c == ctxs[x]
      d == IF c.cut = NoCut THEN [c EXCEPT !.cut = Len(c.text)] ELSE c
      n == Len(c.text) + Len(b) IN
  /\ Sane(d, n, hits)
  /\ (~cb => hits = <<>>)
  /\ c.ret <= ret /\ ret <= n
ResolveUpd(x, b, hits, ret, cb) ==
  LET c == ctxs[x] n == Len(c.text) + Len(b) IN
  /\ ctxs' = [ctxs EXCEPT ![x] = [c EXCEPT !.phase = "resolved", !.text = @ \o b, !.ret = ret,
                 !.cut = IF @ = NoCut THEN Len(c.text) ELSE @,
                 !.hits = Joined(c, hits), !.lost = IF cb THEN @ ELSE n]]
  /\ UNCHANGED <<pats, fsms, progs, bufs>>

\* lg_closeout_search: the rest is reported
CloseOn(c, hits, cb) ==
  /\ Sane(c, Len(c.text), hits)
  /\ LET d == IF cb THEN c ELSE [c EXCEPT !.lost = Len(c.text)] IN
     \A k \in DOMAIN c.kws : Complete(d, k, Joined(c, hits)[k])
CloseOK(x, hits, cb) == CloseOn(ctxs[x], hits, cb)
CloseUpd(x) ==
  /\ ctxs' = [ctxs EXCEPT ![x].phase = "closed"]
  /\ UNCHANGED <<pats, fsms, progs, bufs>>

ResetOK(x) == LET c == ctxs[x] IN
              c.phase \in {"fresh", "closed"} \/ \A k \in DOMAIN c.kws : Prefix(c, k)
ResetUpd(x) ==
  /\ ctxs' = [ctxs EXCEPT ![x] = Fresh(@)]
  /\ UNCHANGED <<pats, fsms, progs, bufs>>

\* lg_starts_with, in a fresh context: one hit for each keyword which matches
\* at the first byte; afterwards the context is fresh again
AtStart(kw, b, got) ==
  LET D == Decode(kw.chain, b)
      E == Ends(kw.tree, D, b) IN
  IF b = <<>> THEN got = <<>>
  ELSE IF Odd(kw.tree) THEN Len(got) <= 1
  ELSE IF E[1] = <<>> THEN got = <<>>
  ELSE IF Vague(kw.tree) \/ VagueOn(kw.tree, D, b)
       THEN Len(got) = 1 /\ got[1][1] = 0 /\ \E j \in DOMAIN E[1] : E[1][j] = got[1][2] + 1
  ELSE got = <<<<0, E[1][1] - 1>>>>
StartsOK(x, b, hits) ==
  LET c == ctxs[x] IN
  /\ Sane(c, Len(b), hits)
  /\ \A k \in DOMAIN c.kws : AtStart(c.kws[k], b, OfKw(hits, k))
StartsUpd(x) == ResetUpd(x)

\* ---- the bindings ---------------------------------------------------------
\* A binding may name the keyword of a hit by its entry in the table.
Numbered(t, h) == LET at == {k \in DOMAIN t.infos : t.infos[k] = h.info} IN
  <<h.s, h.e, IF at = {} THEN -1 ELSE (CHOOSE k \in at : TRUE) - 1>>
\* how many hits there were of each pattern
CountsOK(t, hits, counts) ==
  LET ps == {t.infos[hits[j][3] + 1].pat : j \in DOMAIN hits} IN
  {counts[j] : j \in DOMAIN counts} =
    {<<p, Cardinality({j \in DOMAIN hits : t.infos[hits[j][3] + 1].pat = p})>> : p \in ps}

\* search, close and reset in one; n hits are said to have been found
WholeOK(x, b, hits, n) == n = Len(hits) /\ CloseOn([ctxs[x] EXCEPT !.text = @ \o b], hits, TRUE)

\* a program from a list of keywords, if all of them can be added
RECURSIVE AllOf(_, _, _)
AllOf(items, k, t) ==
  IF k > Len(items) THEN t
  ELSE LET x == items[k] pat == Parsed(x.bytes, x.fx, x.ci, x.un) IN
       AllOf(items, k + 1,
         [can |-> t.can \cup (IF x.encs = <<>> \/ pat.st # "ok" THEN {"no"} ELSE {CanAdd(pat, ParseChain(x.encs[j])) : j \in DOMAIN x.encs}),
          kws |-> t.kws \o [j \in DOMAIN x.encs |-> Kw(pat, ParseChain(x.encs[j]))],
          infos |-> t.infos \o [j \in DOMAIN x.encs |-> Info(pat, x.encs[j], Words(k - 1))]])
MakeOf(items) == AllOf(items, 1, [can |-> {}, kws |-> <<>>, infos |-> <<>>])
MakeOK(items, ok) ==
  LET r == MakeOf(items) IN
  /\ ("no" \in r.can \/ r.kws = <<>>) => ok = 0
  /\ (r.can = {"yes"}) => ok = 1
MakeUpd(g, items, ok) ==
  /\ progs' = IF ok = 1 THEN LET r == MakeOf(items) IN Set(progs, g, [kws |-> r.kws, infos |-> r.infos]) ELSE progs
  /\ UNCHANGED <<pats, fsms, bufs, ctxs>>

\* the user index of an entry of a table is set
SetIdxOK(t, j, ok) == ok = IF j < Len(t.infos) THEN 1 ELSE 0
SetIdx(t, j, idx, ok) == IF ok = 1 THEN [t EXCEPT !.infos[j + 1].idx = idx] ELSE t

\* a search whose callback gives up at the hit numbered stop: the caller learns
\* of it, and the context is good for nothing but a reset
ThrewOK(x, b, hits, stop, thrown) ==
  LET c == ctxs[x] n == Len(c.text) + Len(b) IN
  /\ Sane(c, n, hits)
  /\ Len(hits) <= stop
  /\ thrown = IF Len(hits) = stop THEN 1 ELSE 0
  /\ \A k \in DOMAIN c.kws : Prefix([c EXCEPT !.text = @ \o b, !.hits = Joined(c, hits)], k)
ThrewUpd(x) == ctxs' = [ctxs EXCEPT ![x].phase = "closed"] /\ UNCHANGED <<pats, fsms, progs, bufs>>

DropCtxUpd(x)  == ctxs' = Del(ctxs, x) /\ UNCHANGED <<pats, fsms, progs, bufs>>
DropProgUpd(g) == progs' = Del(progs, g) /\ UNCHANGED <<pats, fsms, bufs, ctxs>>
DropFsmUpd(f)  == fsms' = Del(fsms, f) /\ UNCHANGED <<pats, progs, bufs, ctxs>>
DropBufUpd(b)  == bufs' = Del(bufs, b) /\ UNCHANGED <<pats, fsms, progs, ctxs>>
DropPatUpd(p)  == pats' = Del(pats, p) /\ UNCHANGED <<fsms, progs, bufs, ctxs>>
=============================================================================
