-------------------------------- MODULE Tool --------------------------------
(***************************************************************************)
(* The command line program.  The keywords it loads are a table like that  *)
(* of an FSM; a search prints a row for each hit in each of its inputs.    *)
(***************************************************************************)
EXTENDS Lightgrep, Window

\* ---- keywords ------------------------------------------------------------
RECURSIVE Commas(_)
Commas(encs) == IF encs = <<>> THEN <<>> ELSE Split(Head(encs), {44}, <<>>, <<>>) \o Commas(Tail(encs))
Given(p, n, encs, fx, ci) ==
  [kind |-> "keyword", base |-> [pat |-> CStr(p), lnum |-> n], encs |-> encs, parsed |-> Parsed(p, fx, ci, FALSE)]

RECURSIVE Loaded(_, _, _, _, _, _, _, _, _)
Loaded(lists, k, named, encs, fx, ci, err, i, t) ==
  IF i = 0 \/ k > Len(lists) THEN [i |-> i, t |-> t]
  ELSE LET r == ListFrom(ListItems(lists[k].text, encs, fx, ci, FALSE), 1, IF named THEN lists[k].src ELSE Null, err, i, t)
       IN  Loaded(lists, k + 1, named, encs, fx, ci, err, r.i, r.t)
Nothing == [kws |-> <<>>, infos |-> <<>>]

\* ks: how the keywords are given; err: what is printed about them, in lines
Load(ks, err) ==
  IF ks.pats # <<>>
  THEN ListFrom([k \in DOMAIN ks.pats |-> Given(ks.pats[k], k - 1, Commas(ks.encs), ks.fx = 1, ks.ci = 1)], 1, Null, err, 1, Nothing)
  ELSE Loaded(ks.lists, 1, Len(ks.lists) > 1, ks.encs, ks.fx = 1, ks.ci = 1, err, 1, Nothing)

\* every error is named, and there is success only without one
ValidOK(ks, err, status) ==
  /\ Load(ks, err).i = Len(err) + 1
  /\ status = IF err = <<>> THEN 0 ELSE 1
ValidUpd(f, ks, err) == fsms' = Set(fsms, f, Load(ks, err).t) /\ UNCHANGED <<pats, progs, bufs, ctxs>>

\* A program file is the compiled keywords.
CompileOK(f, status, size) == IF fsms[f].kws = <<>> THEN status # 0 ELSE status = 0 /\ size > 0
CompileUpd(f, b, status) ==
  /\ bufs' = IF status = 0 THEN Set(bufs, b, fsms[f]) ELSE bufs
  /\ UNCHANGED <<pats, fsms, progs, ctxs>>

\* ---- inputs --------------------------------------------------------------
\* fs: the files, [name, b]; dirs: the names of directories; an input is the
\* name of either, or "-" for what comes in at standard input
StdIn == <<40, 115, 116, 97, 110, 100, 97, 114, 100, 32, 105, 110, 112, 117, 116, 41>>
Below(d, x) == Len(x) > Len(d) + 1 /\ SubSeq(x, 1, Len(d)) = d /\ x[Len(d) + 1] = 47
RECURSIVE Inputs(_, _, _, _, _, _)
Inputs(toks, fs, dirs, rec, in, acc) ==
  IF toks = <<>> THEN acc
  ELSE LET x == Head(toks) IN
       IF x = <<45>> THEN Inputs(Tail(toks), fs, dirs, rec, <<>>, acc \o in)
       ELSE IF \E k \in DOMAIN dirs : dirs[k] = x
       THEN Inputs(Tail(toks), fs, dirs, rec, in, IF rec THEN acc \o SelectSeq(fs, LAMBDA f : Below(x, f.name)) ELSE acc)
       ELSE Inputs(Tail(toks), fs, dirs, rec, in, acc \o SelectSeq(fs, LAMBDA f : f.name = x))
Visited(e) == Inputs(e.toks, e.fs, e.dirs, e.rec = 1, <<[name |-> StdIn, b |-> e.stdin]>>, <<>>)

\* ---- rows ----------------------------------------------------------------
\* a row: [p, s, e, u, pat, enc, co, cx]: path, start, end, index of the
\* keyword in its list, pattern, encoding, and context: its offset and itself
Refs(t, b) == TLCEval([k \in DOMAIN t.kws |-> Reference(t.kws[k], b)])
IsOf(r, info) == r.pat = info.pat /\ r.enc = info.enc /\ Words(r.u) = info.idx
Alone(t, k) == \A j \in DOMAIN t.infos : j # k => t.infos[j] # t.infos[k]
HitsIn(rows, info) ==
  LET m == SelectSeq(rows, LAMBDA r : IsOf(r, info)) IN [j \in DOMAIN m |-> <<m[j].s, m[j].e>>]

\* rows are the hits in b, each keyword's in order
FileOK(t, refs, b, rows) ==
  /\ \A j \in DOMAIN rows : \E k \in DOMAIN t.infos : IsOf(rows[j], t.infos[k])
  /\ \A k \in DOMAIN t.kws : Alone(t, k) =>
       LET got == HitsIn(rows, t.infos[k]) IN
       IF refs[k].sure THEN got = refs[k].hits ELSE SomeWay(refs[k], Len(b), got)

\* the rows in order of the files: <<number of rows of the first, ...>>, or <<-1>>
RECURSIVE Parts(_, _, _, _, _, _)
Parts(t, files, refs, k, rows, shown) ==
  IF k > Len(files) THEN (IF rows = <<>> THEN <<>> ELSE <<-1>>)
  ELSE LET fits(n) == /\ (shown => \A j \in 1..n : rows[j].p = files[k].name)
                      /\ FileOK(t, refs[k], files[k].b, SubSeq(rows, 1, n))
           rest(n) == Parts(t, files, refs, k + 1, SubSeq(rows, n + 1, Len(rows)), shown)
           good == {n \in 0..Len(rows) : fits(n)}
           won == {n \in good : LET r == rest(n) IN r = <<>> \/ r[Len(r)] # -1}
       IN  IF won = {} THEN <<-1>> ELSE LET n == CHOOSE n \in won : TRUE IN <<n>> \o rest(n)

Contiguous(rows) == \A i, j \in DOMAIN rows : i < j /\ rows[i].p = rows[j].p => rows[i + 1].p = rows[i].p
\* [ok, parts], parts being <<[b, rows], ...>>, if the rows are those of the files
Sorted(t, e) ==
  LET files == TLCEval(Visited(e))
      refs == TLCEval([k \in DOMAIN files |-> Refs(t, files[k].b)])
  IN  IF e.ord = 1
      THEN LET p == TLCEval(Parts(t, files, refs, 1, e.rows, e.shown = 1))
               RECURSIVE Sum(_)
               Sum(k) == IF k = 0 THEN 0 ELSE p[k] + Sum(k - 1)
           IN  IF p # <<>> /\ p[Len(p)] = -1 THEN [ok |-> FALSE]
               ELSE [ok |-> TRUE, parts |-> [k \in DOMAIN files |-> [b |-> files[k].b, rows |-> SubSeq(e.rows, Sum(k - 1) + 1, Sum(k))]]]
      ELSE LET mine(k) == SelectSeq(e.rows, LAMBDA r : r.p = files[k].name) IN
           IF /\ \A j \in DOMAIN e.rows : \E k \in DOMAIN files : e.rows[j].p = files[k].name
              /\ Contiguous(e.rows)
              /\ \A k \in DOMAIN files : FileOK(t, refs[k], files[k].b, mine(k))
           THEN [ok |-> TRUE, parts |-> [k \in DOMAIN files |-> [b |-> files[k].b, rows |-> mine(k)]]]
           ELSE [ok |-> FALSE]

\* ---- context -------------------------------------------------------------
\* the beginning of the n-th line before offset i, the end of the n-th after
RECURSIVE LineBegin(_, _, _), LineEnd(_, _, _)
LineBegin(b, i, n) == IF i = 0 THEN 0
                      ELSE IF b[i] = 10 THEN (IF n = 0 THEN i ELSE LineBegin(b, i - 1, n - 1))
                      ELSE LineBegin(b, i - 1, n)
LineEnd(b, i, n) == IF i = Len(b) THEN i
                    ELSE IF b[i + 1] = 10 THEN (IF n = 0 THEN i ELSE LineEnd(b, i + 1, n - 1))
                    ELSE LineEnd(b, i + 1, n)
\* [lo, hi): what is shown; without the CR of a CRLF, unless it is in the hit
Shown(b, hb, he, before, after) ==
  LET z == LineEnd(b, he, after) IN
  [lo |-> IF before < 0 THEN hb ELSE LineBegin(b, hb, before),
   hi |-> IF after < 0 THEN he
          ELSE IF z > he /\ z < Len(b) /\ b[z] = 13 THEN z - 1 ELSE z]
\* [lo, pre, hit, post], in UTF-8
Text(ch, b, hb, he, before, after) ==
  LET v == Shown(b, hb, he, before, after)
      n == v.hi - v.lo
      w == Windowed(ch, SubSeq(b, v.lo + 1, v.hi), hb - v.lo, he - v.lo, n, n)
      r == EncUtf8(65533)
  IN  [lo |-> v.lo, pre |-> Utf8Of(w.pre, r, 1, <<>>), hit |-> Utf8Of(w.hit, r, 1, <<>>), post |-> Utf8Of(w.post, r, 1, <<>>)]

\* escapes: 7..13 as \a \b \t \n \v \f \r
EscLetter == <<97, 98, 116, 110, 118, 102, 114>>
RECURSIVE Escaped(_, _, _)
Escaped(s, which, acc) ==
  IF s = <<>> THEN acc
  ELSE Escaped(Tail(s), which, IF Head(s) \in which THEN acc \o <<92, EscLetter[Head(s) - 6]>> ELSE Append(acc, Head(s)))

ChainOf(t, r) == t.kws[CHOOSE k \in DOMAIN t.infos : IsOf(r, t.infos[k])].chain
ContextOK(t, e, parts) ==
  IF e.before < 0 /\ e.after < 0
  THEN \A j \in DOMAIN e.rows : e.rows[j].co = -1
  ELSE \A k \in DOMAIN parts : \A j \in DOMAIN parts[k].rows :
         LET r == parts[k].rows[j]
             x == Text(ChainOf(t, r), parts[k].b, r.s, r.e, e.before, e.after)
         IN  r.co = x.lo /\ r.cx = Escaped(x.pre \o x.hit \o x.post, {9, 10, 13}, <<>>)

\* ---- histogram -----------------------------------------------------------
\* what each hit counts for: <<text, index, pattern>>
RECURSIVE Counted(_, _, _)
Counted(t, e, parts) ==
  IF parts = <<>> THEN <<>>
  ELSE LET p == Head(parts) IN
       [j \in DOMAIN p.rows |-> LET r == p.rows[j] IN
          <<Text(ChainOf(t, r), p.b, r.s, r.e, e.before, e.after).hit, r.u, r.pat>>] \o Counted(t, e, Tail(parts))
\* the rows as they must be, from the reference, where none are printed
RECURSIVE Unprinted(_, _)
UKw(t, refs, k) == [j \in DOMAIN refs[k].hits |->
   [s |-> refs[k].hits[j][1], e |-> refs[k].hits[j][2], u |-> t.infos[k].idx[4] + 65536 * t.infos[k].idx[3],
    pat |-> t.infos[k].pat, enc |-> t.infos[k].enc]]
RECURSIVE UKws(_, _, _)
UKws(t, refs, k) == IF k = 0 THEN <<>> ELSE UKws(t, refs, k - 1) \o UKw(t, refs, k)
Unprinted(t, files) ==
  IF files = <<>> THEN <<>>
  ELSE LET refs == Refs(t, Head(files).b) IN
       <<[b |-> Head(files).b, rows |-> UKws(t, refs, Len(t.kws)), sure |-> \A k \in DOMAIN refs : refs[k].sure]>>
         \o Unprinted(t, Tail(files))

RECURSIVE Less(_, _)      \* of byte strings, not greater
Less(x, y) == IF x = <<>> THEN TRUE ELSE IF y = <<>> THEN FALSE
              ELSE IF Head(x) # Head(y) THEN Head(x) < Head(y) ELSE Less(Tail(x), Tail(y))
HistOK(hist, all) ==
  LET keys == {all[j] : j \in DOMAIN all}
      count(k) == Cardinality({j \in DOMAIN all : all[j] = k})
      row(k) == [n |-> count(k), t |-> Escaped(k[1], 7..13, <<>>), u |-> k[2], pat |-> Escaped(k[3], 7..13, <<>>)]
      R == TLCEval([k \in keys |-> row(k)])
      of(r) == {k \in keys : R[k] = r}
      before(k, l) == \/ count(k) > count(l)
                      \/ (count(k) = count(l) /\ (k[2] < l[2] \/ (k[2] = l[2] /\ Less(k[1], l[1]))))
  IN  /\ Len(hist) = Cardinality(keys)
      /\ \A j \in DOMAIN hist : of(hist[j]) # {}
      /\ \A k \in keys : Cardinality({j \in DOMAIN hist : hist[j] = R[k]}) = Cardinality(of(R[k]))
      /\ \A j \in 1..(Len(hist) - 1) : \E k \in of(hist[j]), l \in of(hist[j + 1]) : k # l /\ before(k, l)

\* ---- a search ------------------------------------------------------------
RECURSIVE Total(_)
Total(files) == IF files = <<>> THEN 0 ELSE Len(Head(files).b) + Total(Tail(files))
RunOK(t, e) ==
  IF t.kws = <<>> THEN e.status # 0 /\ e.rows = <<>>
  ELSE /\ e.status = 0
       /\ IF e.quiet = 1
          THEN /\ e.rows = <<>>
               /\ e.whist = 1 =>
                    LET u == Unprinted(t, Visited(e)) IN
                    (\A k \in DOMAIN u : u[k].sure) => HistOK(e.hist, Counted(t, e, u))
          ELSE LET s == TLCEval(Sorted(t, e)) IN
               /\ s.ok
               /\ ContextOK(t, e, s.parts)
               /\ e.whist = 1 => HistOK(e.hist, Counted(t, e, s.parts))
               /\ e.seps = IF (e.before < 0 /\ e.after < 0) \/ e.rows = <<>> THEN 0 ELSE Len(e.rows) - 1
               /\ e.nhits # -1 => e.nhits = Len(e.rows)
       /\ e.nbytes # -1 => e.nbytes = Total(Visited(e))

\* ---- samples -------------------------------------------------------------
\* Each sample is one whole match of some keyword, there are no more than asked
\* for, and there are some.
Whole(kw, s) == LET E == Ends(kw.tree, Decode(kw.chain, s), s) IN
                s # <<>> /\ (Odd(kw.tree) \/ \E j \in DOMAIN E[1] : E[1][j] = Len(s) + 1)
SamplesOK(t, e) ==
  e.nerr = 0 =>
  /\ Len(e.lines) <= e.limit
  /\ (e.limit > 0 /\ e.loops > 0 /\ t.kws # <<>>) => e.lines # <<>>
  /\ \A i, j \in DOMAIN e.lines : i # j => e.lines[i] # e.lines[j]
  /\ \A j \in DOMAIN e.lines : \E k \in DOMAIN t.kws : Whole(t.kws[k], e.lines[j])
=============================================================================
