------------------------------- MODULE Chars -------------------------------
(***************************************************************************)
(* Code points and sets of them.  A set is kept as an expression and       *)
(* membership is decided point by point, so that properties with hundreds  *)
(* of ranges cost no more than a letter.                                   *)
(*                                                                         *)
(* Facts about Unicode which the specification does not define itself      *)
(* (general categories, case closures, names) come in as data: FactProps   *)
(* maps a property, spelled as it stands in a pattern, to an inversion     *)
(* list, FactFold lists the code points with case variants, and those.     *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC

CONSTANTS FactProps,   \* sequence of [name |-> seq of cps, ok |-> 0/1, inv |-> seq of boundaries]
          FactFold,    \* sequence of <<cp, its case variants, itself excluded>>, ascending
          FactNames    \* sequence of [name |-> seq of cps, cp |-> cp]

MaxCp == 1114111
InR(x, lo, hi) == lo <= x /\ x <= hi

\* ---- set expressions -----------------------------------------------------
None        == [t |-> "none"]
Rng(lo, hi) == [t |-> "rng", lo |-> lo, hi |-> hi]
One(c)      == Rng(c, c)
Inv(l)      == [t |-> "inv", l |-> l]           \* inversion list
Prop(k)     == [t |-> "prop", k |-> k]         \* FactProps[k]
Or(a, b)    == [t |-> "or", a |-> a, b |-> b]
And(a, b)   == [t |-> "and", a |-> a, b |-> b]
Diff(a, b)  == [t |-> "diff", a |-> a, b |-> b]
Xor(a, b)   == [t |-> "xor", a |-> a, b |-> b]
Not(a)      == [t |-> "not", a |-> a]
Ci(a)       == [t |-> "ci", a |-> a]            \* closed under case folding
CiAscii(a)  == [t |-> "cia", a |-> a]           \* same, but ASCII folds to ASCII only

\* number of boundaries in l which are <= x; l is sorted
RECURSIVE CountLE(_, _, _, _)
CountLE(l, x, lo, hi) ==   \* invariant: l[1..lo] <= x, l[hi+1..] > x
  IF lo = hi THEN lo
  ELSE LET m == (lo + hi + 1) \div 2
       IN  IF l[m] <= x THEN CountLE(l, x, m, hi) ELSE CountLE(l, x, lo, m - 1)

RECURSIVE FoldAt(_, _, _)
FoldAt(c, lo, hi) ==
  IF lo > hi THEN <<>>
  ELSE LET m == (lo + hi) \div 2 IN
       IF FactFold[m][1] = c THEN FactFold[m][2]
       ELSE IF FactFold[m][1] < c THEN FoldAt(c, m + 1, hi) ELSE FoldAt(c, lo, m - 1)
Folds(c) == FoldAt(c, 1, Len(FactFold))
IsUpper(c) == InR(c, 65, 90)
IsLower(c) == InR(c, 97, 122)
AsciiFold(c) == IF IsUpper(c) THEN c + 32 ELSE IF IsLower(c) THEN c - 32 ELSE c

RECURSIVE In(_, _)
In(c, s) ==
  CASE s.t = "none" -> FALSE
    [] s.t = "rng"  -> s.lo <= c /\ c <= s.hi
    [] s.t = "inv"  -> CountLE(s.l, c, 0, Len(s.l)) % 2 = 1
    [] s.t = "prop" -> LET l == FactProps[s.k].inv IN CountLE(l, c, 0, Len(l)) % 2 = 1
    [] s.t = "or"   -> In(c, s.a) \/ In(c, s.b)
    [] s.t = "and"  -> In(c, s.a) /\ In(c, s.b)
    [] s.t = "diff" -> In(c, s.a) /\ ~In(c, s.b)
    [] s.t = "xor"  -> In(c, s.a) # In(c, s.b)
    [] s.t = "not"  -> InR(c, 0, MaxCp) /\ ~In(c, s.a)
    [] s.t = "ci"   -> In(c, s.a) \/ \E k \in DOMAIN Folds(c) : In(Folds(c)[k], s.a)
    \* An ASCII letter is in by itself or its ASCII counterpart. A code point
    \* beyond ASCII folds as usual, but only with others beyond ASCII as the
    \* origin; an ASCII letter may also come in as the variant of a code point
    \* beyond ASCII.
    [] s.t = "cia"  -> \/ In(c, s.a)
                       \/ c < 128 /\ In(AsciiFold(c), s.a)
                       \/ \E k \in DOMAIN Folds(c) : Folds(c)[k] >= 128 /\ In(Folds(c)[k], s.a)

\* A finite set of code points such that, if no case closure is involved, a
\* nonempty set contains one of them.
RECURSIVE Cands(_)
Cands(s) ==
  CASE s.t = "none" -> {0}
    [] s.t = "rng"  -> {0, s.lo, s.hi + 1}
    [] s.t = "inv"  -> {0} \cup {s.l[k] : k \in DOMAIN s.l}
    [] s.t = "prop" -> {0} \cup {FactProps[s.k].inv[k] : k \in DOMAIN FactProps[s.k].inv}
    [] s.t \in {"or", "and", "diff", "xor"} -> Cands(s.a) \cup Cands(s.b)
    [] s.t = "not"  -> Cands(s.a)
    [] s.t \in {"ci", "cia"} ->
         LET A == Cands(s.a)
         IN  A \cup {c + 1 : c \in A} \cup UNION {{Folds(c)[k] : k \in DOMAIN Folds(c)} : c \in A}

RECURSIVE Closed(_)
Closed(s) ==  \* no case closure within
  CASE s.t \in {"none", "rng", "inv", "prop"} -> TRUE
    [] s.t \in {"or", "and", "diff", "xor"} -> Closed(s.a) /\ Closed(s.b)
    [] s.t = "not" -> Closed(s.a)
    [] s.t \in {"ci", "cia"} -> FALSE

\* "yes", "no" or, where the candidates cannot settle it, "maybe"
EmptyOn(s, extra, P(_)) ==
  IF \E c \in Cands(s) : InR(c, 0, MaxCp) /\ P(c) /\ In(c, s) THEN "no"
  ELSE IF \E c \in extra : InR(c, 0, MaxCp) /\ P(c) /\ In(c, s) THEN "no"
  ELSE IF Closed(s) THEN "yes" ELSE "maybe"

Always(c) == TRUE
Empty(s) == EmptyOn(s, {}, Always)

\* ---- named classes -------------------------------------------------------
PropIdx(name) == {k \in DOMAIN FactProps : FactProps[k].name = name}
PropOk(name)  == \E k \in PropIdx(name) : FactProps[k].ok = 1
PropSet(name) == Prop(CHOOSE k \in PropIdx(name) : TRUE)
NameIdx(name) == {k \in DOMAIN FactNames : FactNames[k].name = name}
NameOk(name)  == \E k \in NameIdx(name) : FactNames[k].cp >= 0
NameCp(name)  == FactNames[CHOOSE k \in NameIdx(name) : TRUE].cp

HSpace == Inv(<<9, 10, 32, 33, 160, 161, 5760, 5761, 6158, 6159, 8192, 8203,
                8239, 8240, 8287, 8288, 12288, 12289>>)
VSpace == Inv(<<10, 14, 133, 134, 8232, 8234>>)
AsciiSpace == Inv(<<9, 14, 32, 33>>)
AsciiDigit == Rng(48, 57)
AsciiWord  == Inv(<<48, 58, 65, 91, 95, 96, 97, 123>>)
\* \p{Nd}, \p{L}, \p{N}
UniDigit == PropSet(<<92, 112, 123, 78, 100, 125>>)
UniWord  == Or(Or(PropSet(<<92, 112, 123, 76, 125>>), PropSet(<<92, 112, 123, 78, 125>>)), One(95))
DigitSet(ascii) == IF ascii THEN AsciiDigit ELSE UniDigit
SpaceSet(ascii) == IF ascii THEN AsciiSpace ELSE Or(HSpace, VSpace)
WordSet(ascii)  == IF ascii THEN AsciiWord ELSE UniWord

Close(s, o) == IF o.ci THEN (IF o.ascii THEN CiAscii(s) ELSE Ci(s)) ELSE s

\* ---- UTF-8 ---------------------------------------------------------------
\* The code point whose UTF-8 encoding starts at b[i], or -1
Cont(b, i) == i <= Len(b) /\ InR(b[i], 128, 191)
Utf8At(b, i) ==
  LET x == b[i] IN
  CASE x < 128 -> [len |-> 1, cp |-> x]
    [] InR(x, 194, 223) /\ Cont(b, i+1) ->
         [len |-> 2, cp |-> (x - 192) * 64 + (b[i+1] - 128)]
    [] InR(x, 224, 239) /\ Cont(b, i+1) /\ Cont(b, i+2) ->
         LET c == (x - 224) * 4096 + (b[i+1] - 128) * 64 + (b[i+2] - 128)
         IN  IF c < 2048 \/ InR(c, 55296, 57343) THEN [len |-> 1, cp |-> -1]
             ELSE [len |-> 3, cp |-> c]
    [] InR(x, 240, 244) /\ Cont(b, i+1) /\ Cont(b, i+2) /\ Cont(b, i+3) ->
         LET c == (x - 240) * 262144 + (b[i+1] - 128) * 4096
                  + (b[i+2] - 128) * 64 + (b[i+3] - 128)
         IN  IF c < 65536 \/ c > MaxCp THEN [len |-> 1, cp |-> -1]
             ELSE [len |-> 4, cp |-> c]
    [] OTHER -> [len |-> 1, cp |-> -1]

RECURSIVE Utf8All(_, _, _)
Utf8All(b, i, acc) ==   \* all code points from i on, or <<-1>> if ill-formed
  IF i > Len(b) THEN acc
  ELSE LET d == Utf8At(b, i)
       IN  IF d.cp < 0 THEN <<-1>> ELSE Utf8All(b, i + d.len, Append(acc, d.cp))
Utf8Decode(b) == Utf8All(b, 1, <<>>)
=============================================================================
