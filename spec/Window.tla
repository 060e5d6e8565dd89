------------------------------- MODULE Window -------------------------------
(***************************************************************************)
(* Decoding the surroundings of a hit.  b is a buffer, the hit is its      *)
(* bytes [hb, he) (from 0).                                                *)
(***************************************************************************)
EXTENDS Codec

\* How many bytes a character may take.  For encodings other than the UTFs and
\* ASCII the buffers are too short for this to matter.
Gear(ch) == IF ch.enc \in Utfs THEN ch.max ELSE 100

\* [raw, D]: what stands at each position; of several characters at one
\* position (there should be none) the shortest counts
View(ch, b) ==
  LET r == TLCEval(Raw(ch, b)) IN
  [raw |-> r, D |-> TLCEval([i \in 1..Len(b) |->
     IF ch.enc \in Utfs THEN DecUtf(ch.enc, r, i) ELSE DecTab(FactEncs[ch.at].dec[r[i] + 1], r, i, 1, <<>>)])]

\* at position i (from 1), the buffer ending before lim: <<code point or bad
\* value, length>>
At(v, i, lim) ==
  LET fit == {k \in DOMAIN v.D[i] : i + v.D[i][k][1] <= lim} IN
  IF fit = {} THEN <<-v.raw[i] - 1, 1>>
  ELSE LET k == CHOOSE k \in fit : \A j \in fit : v.D[i][k][1] <= v.D[i][j][1] IN <<v.D[i][k][2], v.D[i][k][1]>>

\* The decoded characters of [i, lim): each <<value, offset from 0>>
RECURSIVE Dec(_, _, _, _)
Dec(v, i, lim, acc) ==
  IF i >= lim THEN acc
  ELSE LET a == At(v, i, lim) IN Dec(v, i + a[2], lim, Append(acc, <<a[1], i - 1>>))

Last(s, n) == IF Len(s) <= n THEN s ELSE SubSeq(s, Len(s) - n + 1, Len(s))
BadIn(s) == Cardinality({k \in DOMAIN s : s[k][1] < 0})
RECURSIVE GoodRun(_, _)
GoodRun(s, k) == IF k = 0 \/ (k > 0 /\ s[k][1] < 0) THEN Len(s) - k ELSE GoodRun(s, k - 1)

\* what decoding from i up to the hit at position h gives, with single bytes
\* before it if there are too few characters
RECURSIVE Pad(_, _, _, _)
Pad(b, i, n, s) == IF Len(s) >= n \/ i < 1 THEN s ELSE Pad(b, i - 1, n, <<<<-b[i] - 1, i - 1>>>> \o s)
Lead(v, b, i, h, n) == Pad(b, i - 1, n, Dec(v, i, h, <<>>))

\* The leading context aligns on the hit: of all positions from which to begin,
\* the one with the longest run of good characters next to the hit, then with
\* the fewest bad ones, then the one furthest away.
RECURSIVE BestLead(_, _, _, _, _, _, _)
BestLead(v, b, i, h, n, low, best) ==
  IF i < low THEN best
  ELSE LET s == Lead(v, b, i, h, n)
           g == GoodRun(s, Len(s)) w == BadIn(s)
       IN  BestLead(v, b, i - 1, h, n, low,
             IF g > best.g \/ (g = best.g /\ w <= best.w) THEN [g |-> g, w |-> w, s |-> s] ELSE best)
Max(a, c) == IF a > c THEN a ELSE c
Min(a, c) == IF a < c THEN a ELSE c
Leading(ch, v, b, h, n) ==
  IF n = 0 \/ h = 1 THEN <<>>
  ELSE Last(BestLead(v, b, h - 1, h, n, Max(1, h - n * Gear(ch)), [g |-> 0, w |-> Len(b) + n + 1, s |-> <<>>]).s, n)

\* The window: [pre, hit, post, end], sequences of <<value, offset>>; end is
\* the offset at which it ends
Windowed(ch, b, hb, he, pre, post) ==
  LET v == View(ch, b)
      lim == Min(he + post * Gear(ch), Len(b)) + 1
      s == Dec(v, hb + 1, lim, <<>>)
      n == Cardinality({k \in DOMAIN s : s[k][2] < he})
      m == Min(n + post, Len(s))
  IN  [pre |-> Leading(ch, v, b, hb + 1, pre), hit |-> SubSeq(s, 1, n), post |-> SubSeq(s, n + 1, m),
       end |-> IF m < Len(s) THEN s[m + 1][2] ELSE lim - 1]

WindowEnd == -1114113
\* raw and transformed values of what does not decode are not told apart
SameVal(ch, b, got, want) ==
  IF want[1] >= 0 THEN got = want[1]
  ELSE got \in {want[1], -b[want[2] + 1] - 1, -Raw(ch, b)[want[2] + 1] - 1}

\* a binding may not tell how many bad bytes there were
NotTold == -2

WinOK(ch, b, hb, he, pre, post, cps, offs, dhb, dhe, bad, nerr) ==
  IF ~ch.ok THEN nerr = 1 /\ cps = <<>>
  ELSE LET w == Windowed(ch, b, hb, he, pre, post)
           all == w.pre \o w.hit \o w.post
       IN /\ nerr = 0
          /\ Len(cps) = Len(all) + 1
          /\ \A k \in DOMAIN all : SameVal(ch, b, cps[k], all[k]) /\ offs[k] = all[k][2]
          /\ cps[Len(cps)] = WindowEnd /\ offs[Len(cps)] = w.end
          /\ dhb = Len(w.pre) /\ dhe = Len(w.pre) + Len(w.hit)
          /\ bad \in {BadIn(all), NotTold}

RECURSIVE Utf8Of(_, _, _, _)
Utf8Of(s, repl, k, acc) ==
  IF k > Len(s) THEN acc
  ELSE Utf8Of(s, repl, k + 1, acc \o (IF s[k][1] <= 0 THEN repl ELSE EncUtf8(s[k][1])))

\* lg_hit_context: n characters on each side, as UTF-8
HctxOK(ch, b, hb, he, n, repl, utf8, ob, oe, dhb, dhe, bad, nerr) ==
  IF ~ch.ok THEN nerr = 1 /\ utf8 = <<>>
  ELSE LET w == Windowed(ch, b, hb, he, n, n)
           r == IF repl > MaxCp THEN <<>> ELSE EncUtf8(repl)
           p == Utf8Of(w.pre, r, 1, <<>>)
           h == Utf8Of(w.hit, r, 1, <<>>)
           t == Utf8Of(w.post, r, 1, <<>>)
           all == w.pre \o w.hit \o w.post
       IN /\ nerr = 0
          /\ utf8 = p \o h \o t
          /\ dhb = Len(p) /\ dhe = Len(p) + Len(h)
          /\ ob = (IF all = <<>> THEN w.end ELSE all[1][2]) /\ oe = w.end
          /\ bad \in {BadIn(all), NotTold}
=============================================================================
