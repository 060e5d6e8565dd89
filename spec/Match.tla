------------------------------- MODULE Match -------------------------------
(***************************************************************************)
(* What a keyword matches: the priorities of a backtracking matcher, as in *)
(* Perl.  For a node x, Ends(x, D, b)[i] lists the positions at which a    *)
(* match of x starting at i may end, the most preferred first, without     *)
(* duplicates.  Positions are 1..Len(b)+1.                                 *)
(***************************************************************************)
EXTENDS Pattern, Codec

RECURSIVE Uniq(_, _, _)
Uniq(s, k, acc) ==
  IF k > Len(s) THEN acc
  ELSE Uniq(s, k + 1, IF \E j \in DOMAIN acc : acc[j] = s[k] THEN acc ELSE Append(acc, s[k]))
Dedup(s) == IF Len(s) < 2 THEN s ELSE Uniq(s, 1, <<>>)

\* concatenation of f[s[1]], f[s[2]], ...
RECURSIVE FlatMap(_, _, _, _)
FlatMap(s, f, k, acc) == IF k > Len(s) THEN acc ELSE FlatMap(s, f, k + 1, acc \o f[s[k]])
Via(s, f) == IF s = <<>> THEN <<>>
             ELSE IF Len(s) = 1 THEN f[s[1]] ELSE Dedup(FlatMap(s, f, 1, <<>>))

RECURSIVE AtomEnds(_, _, _, _)
\* ends of the encodings d[k..] of code points which satisfy the node
AtomEnds(x, d, i, k) ==
  IF k > Len(d) THEN <<>>
  ELSE IF CASE x.t = "lit" -> d[k][2] = x.c
            [] x.t = "dot" -> TRUE
            [] x.t = "cls" -> In(d[k][2], x.s)
       THEN <<i + d[k][1]>> \o AtomEnds(x, d, i, k + 1)
       ELSE AtomEnds(x, d, i, k + 1)

\* a character class, whose breakout bytes are added to or taken from the
\* encodings of its code points
ClsEnds(x, d, b, i) ==
  LET e == AtomEnds(x, d, i, 1) IN
  IF x.b = {} THEN Dedup(e)
  ELSE IF x.add THEN Dedup(IF b[i] \in x.b THEN <<i + 1>> \o e ELSE e)
  ELSE SelectSeq(Dedup(e), LAMBDA z : z # i + 1 \/ b[i] \notin x.b)

\* x*: f[i] for i from n+1 downwards; an iteration which matches nothing ends
\* the loop
RECURSIVE StarFrom(_, _, _, _)
StarFrom(A, greedy, i, f) ==
  IF i = 0 THEN f
  ELSE LET more == LET g == [z \in {A[i][k] : k \in DOMAIN A[i]} |-> IF z = i THEN <<i>> ELSE f[z]]
                   IN  FlatMap(A[i], g, 1, <<>>)
       IN  StarFrom(A, greedy, i - 1,
                    TLCEval([f EXCEPT ![i] = Dedup(IF greedy THEN more \o <<i>> ELSE <<i>> \o more)]))
Star(A, greedy, n) == StarFrom(A, greedy, n + 1, [i \in 1..(n+1) |-> <<>>])

\* x{0,k} as (x(x(...)?)?)?
RECURSIVE UpTo(_, _, _, _, _)
UpTo(A, greedy, n, k, f) ==
  IF k = 0 THEN f
  ELSE LET g == TLCEval([i \in 1..(n+1) |-> IF greedy THEN Dedup(Via(A[i], f) \o <<i>>)
                                            ELSE Dedup(<<i>> \o Via(A[i], f))])
       IN  IF g = f THEN f ELSE UpTo(A, greedy, n, k - 1, g)

RECURSIVE Times(_, _, _, _)
Times(A, n, k, f) ==  \* A^k then f
  IF k = 0 THEN f
  ELSE LET g == TLCEval([i \in 1..(n+1) |-> Via(A[i], f)])
       IN  IF g = f THEN f ELSE Times(A, n, k - 1, g)

RECURSIVE Ends(_, _, _)
Ends(x, D, b) ==
  LET n == Len(b)
      Pos == 1..(n + 1)
      L == Ends(x.l, D, b)
      R == Ends(x.r, D, b)
      A == Ends(x.x, D, b)
  IN TLCEval(
  CASE x.t \in {"lit", "dot"} -> [i \in Pos |-> IF i > n THEN <<>> ELSE Dedup(AtomEnds(x, D[i], i, 1))]
    [] x.t = "cls"  -> [i \in Pos |-> IF i > n THEN <<>> ELSE ClsEnds(x, D[i], b, i)]
    [] x.t = "byte" -> [i \in Pos |-> IF i <= n /\ b[i] = x.b THEN <<i + 1>> ELSE <<>>]
    [] x.t = "cat"  -> [i \in Pos |-> Via(L[i], R)]
    [] x.t = "alt"  -> [i \in Pos |-> Dedup(L[i] \o R[i])]
    [] x.t = "rep"  ->
         IF x.max = 0 THEN [i \in Pos |-> <<i>>]
         ELSE Times(A, n, x.min,
                IF x.max = Unbounded THEN Star(A, x.greedy, n)
                ELSE UpTo(A, x.greedy, n, x.max - x.min, [i \in Pos |-> <<i>>])))

\* Successive hits from position i: leftmost, not overlapping.  0-based
\* [start, end) pairs.
RECURSIVE Scan(_, _, _, _)
Scan(E, n, i, acc) ==
  IF i > n THEN acc
  ELSE IF E[i] = <<>> THEN Scan(E, n, i + 1, acc)
  ELSE Scan(E, n, E[i][1], Append(acc, <<i - 1, E[i][1] - 1>>))
Hits(x, D, b) == LET E == Ends(x, D, b) IN Scan(E, Len(b), 1, <<>>)
HitAt0(x, D, b) == LET E == Ends(x, D, b) IN IF b = <<>> \/ E[1] = <<>> THEN <<>> ELSE <<<<0, E[1][1] - 1>>>>

\* ---- which trees can be compiled for a chain -----------------------------
\* "yes", "no" or "maybe"
Both(a, b) == IF a = "no" \/ b = "no" THEN "no" ELSE IF a = "yes" /\ b = "yes" THEN "yes" ELSE "maybe"
RECURSIVE Compiles(_, _)
Compiles(x, ch) ==
  CASE x.t = "lit" -> IF Has(ch, x.c) THEN "yes" ELSE "no"
    [] x.t = "cls" /\ x.odd -> "maybe"
    [] x.t \in {"dot", "byte"} -> "yes"
    [] x.t = "cls" ->
         LET P(c) == Has(ch, c)
             e == EmptyOn(x.s, Edges(ch), P)
             Q(c) == Has(ch, c) /\ ~(Len(EncUtf(ch.enc, c)) = 1 /\ EncUtf(ch.enc, c)[1] \in x.b)
             f == EmptyOn(x.s, Edges(ch) \cup 0..255, Q)
         IN  IF x.add THEN (IF x.b # {} THEN "yes"
                            ELSE IF e = "no" THEN "yes" ELSE IF e = "yes" THEN "no" ELSE "maybe")
             ELSE IF ch.enc \in Utfs /\ ch.oce = 0 /\ f = "no" THEN "yes"
             ELSE IF e = "yes" THEN "no" ELSE "maybe"
    [] x.t = "alt" /\ Nullable(x.l) -> Both(Compiles(x.l, ch), IF Compiles(x.r, ch) = "yes" THEN "yes" ELSE "maybe")
    [] x.t \in {"cat", "alt"} -> Both(Compiles(x.l, ch), Compiles(x.r, ch))
    \* what never needs to be matched may be dropped first
    [] x.t = "rep" -> IF x.max = 0 \/ (x.min = 0 /\ ~x.greedy)
                      THEN (IF Compiles(x.x, ch) = "yes" THEN "yes" ELSE "maybe")
                      ELSE Compiles(x.x, ch)

\* May the pattern with tree x be added under the chain?
Addable(x, ch) == IF Nullable(x) THEN "no" ELSE Compiles(x, ch)

\* Where the number of iterations of a bounded repetition whose body can match
\* nothing matters, matchers in use disagree on preferences: all of its matches
\* are known, but not which of them comes first.
RECURSIVE Vague(_)
Vague(x) ==
  CASE x.t \in {"cat", "alt"} -> Vague(x.l) \/ Vague(x.r)
    [] x.t = "rep" -> Vague(x.x) \/ (Nullable(x.x) /\ (x.max > 1 \/ (x.max = Unbounded /\ x.min > 1)))
    [] OTHER -> FALSE
\* So it is with a class which can match both a breakout byte and a longer
\* encoding beginning with it.
RECURSIVE VagueOn(_, _, _)
VagueOn(x, D, b) ==
  CASE x.t \in {"cat", "alt"} -> VagueOn(x.l, D, b) \/ VagueOn(x.r, D, b)
    [] x.t = "rep" -> VagueOn(x.x, D, b)
    [] x.t = "cls" -> x.b # {} /\ x.add /\ \E i \in DOMAIN b : Len(ClsEnds(x, D[i], b, i)) > 1
    [] OTHER -> FALSE

\* It is not known what such a class matches.
RECURSIVE Odd(_)
Odd(x) ==
  CASE x.t \in {"cat", "alt"} -> Odd(x.l) \/ Odd(x.r)
    [] x.t = "rep" -> Odd(x.x)
    [] x.t = "cls" -> x.odd
    [] OTHER -> FALSE

\* Is h, a sequence of 0-based [start, end) pairs, a way to scan, if any of the
\* ends may come first?
RECURSIVE SomeScan(_, _, _, _, _)
SomeScan(E, n, i, h, k) ==
  IF i > n THEN k > Len(h)
  ELSE IF E[i] = <<>> THEN SomeScan(E, n, i + 1, h, k)
  ELSE k <= Len(h) /\ h[k][1] = i - 1 /\ (\E j \in DOMAIN E[i] : E[i][j] = h[k][2] + 1)
       /\ SomeScan(E, n, h[k][2] + 1, h, k + 1)
\* ---- matches under way ------------------------------------------------------
\* Positions from which a match of x could run past the end of b, if more text
\* came; every such position is in, perhaps some others where only a part of an
\* encoded character is left.
RECURSIVE Live(_, _, _, _)
Live(x, ch, D, b) ==
  LET n == Len(b)
      L == Live(x.l, ch, D, b)
      R == Live(x.r, ch, D, b)
      EL == Ends(x.l, D, b)
      A == Live(x.x, ch, D, b)
      S == Star(Ends(x.x, D, b), TRUE, n)
  IN TLCEval(
  CASE x.t \in {"lit", "dot", "cls"} -> {i \in 1..(n + 1) : i > n \/ n - i + 1 < ch.max}
    [] x.t = "byte" -> {n + 1}
    [] x.t = "cat" -> L \cup {i \in 1..(n + 1) : \E j \in DOMAIN EL[i] : EL[i][j] \in R}
    [] x.t = "alt" -> L \cup R
    [] x.t = "rep" -> IF x.max = 0 THEN {}
                      ELSE {i \in 1..(n + 1) : i \in A \/ \E j \in DOMAIN S[i] : S[i][j] \in A})

\* The least offset (from 0) at which a match could still begin, or begin and
\* not be reported yet, after b, hits up to the offset from being reported
\* already. (Matches which overlap those hits count: they are not given up
\* before they come to something.)
Pending(x, ch, D, b, from) ==
  LET n == Len(b)
      E == Ends(x, D, b)
      V == Live(x, ch, D, b)
      P == {i \in 1..n : i \in V \/ (i > from /\ \E j \in DOMAIN E[i] : E[i][j] = n + 1)}
  IN  IF P = {} THEN n ELSE (CHOOSE i \in P : \A j \in P : i <= j) - 1
=============================================================================
