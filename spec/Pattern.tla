------------------------------ MODULE Pattern ------------------------------
(***************************************************************************)
(* The pattern language: which strings are patterns, and the tree each one *)
(* denotes.  A recursive descent over the code points of the pattern.      *)
(*                                                                         *)
(* Parse(bytes, fixed, ci, uni) is [ok, node, dead].  ok is FALSE where    *)
(* the pattern must be rejected.  Assertions are recognized by the syntax  *)
(* but not supported, so that a pattern with one is rejected when parsed   *)
(* or when added.                                                          *)
(***************************************************************************)
EXTENDS Chars

\* ---- tree ----------------------------------------------------------------
Lit(c)          == [t |-> "lit", c |-> c]
Byte(b)         == [t |-> "byte", b |-> b]
Dot             == [t |-> "dot"]
\* s: code points; b: set of bytes; add: bytes are added or taken away
Cls(s, b, add)  == [t |-> "cls", s |-> s, b |-> b, add |-> add, dead |-> FALSE, odd |-> FALSE]
Cat(l, r)       == [t |-> "cat", l |-> l, r |-> r]
Alt(l, r)       == [t |-> "alt", l |-> l, r |-> r]
Rep(x, n, m, g) == [t |-> "rep", x |-> x, min |-> n, max |-> m, greedy |-> g]
Unbounded == -1

\* ---- lexer ---------------------------------------------------------------
\* Token: k kind, c code point or byte or symbol, s set, n index after it.
\* kinds: char, digit, byte, set, sym, hh (--), aa (&&), tt (~~),
\*        wb (\b), assert, bad, end
T(k, c, n)  == [k |-> k, c |-> c, s |-> None, n |-> n]
TS(s, n)    == [k |-> "set", c |-> 0, s |-> s, n |-> n]
TBad        == [k |-> "bad", c |-> 0, s |-> None, n |-> 0]

HexVal(c) == IF InR(c, 48, 57) THEN c - 48
             ELSE IF InR(c, 65, 70) THEN c - 55
             ELSE IF InR(c, 97, 102) THEN c - 87 ELSE -1
OctVal(c) == IF InR(c, 48, 55) THEN c - 48 ELSE -1

\* [cp, n]: exactly two hex digits at i
HexByte(p, i) ==
  IF i + 1 <= Len(p) /\ HexVal(p[i]) >= 0 /\ HexVal(p[i+1]) >= 0
  THEN [v |-> HexVal(p[i]) * 16 + HexVal(p[i+1]), n |-> i + 2]
  ELSE [v |-> -1, n |-> i]

\* one to six hex digits and a closing brace, starting at i
RECURSIVE HexCp(_, _, _, _)
HexCp(p, i, v, d) ==
  IF i > Len(p) THEN [v |-> -1, n |-> i]
  ELSE IF p[i] = 125 THEN
         (IF d = 0 \/ v > MaxCp THEN [v |-> -1, n |-> i] ELSE [v |-> v, n |-> i + 1])
  ELSE IF d = 6 \/ HexVal(p[i]) < 0 THEN [v |-> -1, n |-> i]
  ELSE HexCp(p, i + 1, v * 16 + HexVal(p[i]), d + 1)

\* up to three octal digits
RECURSIVE Oct(_, _, _, _)
Oct(p, i, v, d) ==
  IF d = 3 \/ i > Len(p) \/ (i <= Len(p) /\ OctVal(p[i]) < 0)
  THEN [v |-> IF v > 255 THEN -1 ELSE v, n |-> i]
  ELSE Oct(p, i + 1, v * 8 + OctVal(p[i]), d + 1)

\* index of the first closing brace at or after i, or 0
RECURSIVE Brace(_, _)
Brace(p, i) == IF i > Len(p) THEN 0 ELSE IF p[i] = 125 THEN i ELSE Brace(p, i + 1)

Self == {124, 40, 41, 63, 43, 42, 46, 91, 93, 94, 36, 45, 123, 125, 38, 126, 60, 61, 33, 92}
OfVal(k, r) == IF r.v < 0 THEN TBad ELSE T(k, r.v, r.n)

\* escape sequence, i is just past the backslash
Escape(p, i, o) ==
  IF i > Len(p) THEN TBad
  ELSE LET c == p[i] j == i + 1 IN
  CASE c \in Self -> T("char", c, j)
    [] c = 97  -> T("char", 7, j)        \* \a
    [] c = 101 -> T("char", 27, j)       \* \e
    [] c = 102 -> T("char", 12, j)       \* \f
    [] c = 110 -> T("char", 10, j)       \* \n
    [] c = 114 -> T("char", 13, j)       \* \r
    [] c = 116 -> T("char", 9, j)        \* \t
    [] c = 100 -> TS(DigitSet(o.ascii), j)
    [] c = 68  -> TS(Not(DigitSet(o.ascii)), j)
    [] c = 115 -> TS(SpaceSet(o.ascii), j)
    [] c = 83  -> TS(Not(SpaceSet(o.ascii)), j)
    [] c = 119 -> TS(WordSet(o.ascii), j)
    [] c = 87  -> TS(Not(WordSet(o.ascii)), j)
    [] c = 104 -> TS(HSpace, j)
    [] c = 72  -> TS(Not(HSpace), j)
    [] c = 118 -> TS(VSpace, j)
    [] c = 86  -> TS(Not(VSpace), j)
    [] c = 120 -> IF j <= Len(p) /\ p[j] = 123 THEN OfVal("char", HexCp(p, j + 1, 0, 0))
                  ELSE OfVal("char", HexByte(p, j))
    [] c = 122 -> OfVal("byte", HexByte(p, j))
    [] InR(c, 48, 55) -> OfVal("char", Oct(p, i, 0, 0))
    [] c = 78  -> IF j > Len(p) \/ (j <= Len(p) /\ p[j] # 123) THEN TBad
                  ELSE IF j + 2 <= Len(p) /\ p[j+1] = 85 /\ p[j+2] = 43
                       THEN OfVal("char", HexCp(p, j + 3, 0, 0))
                  ELSE LET e == Brace(p, j + 1) IN
                       IF e = 0 THEN TBad
                       ELSE LET nm == SubSeq(p, j + 1, e - 1) IN
                            IF NameOk(nm) THEN T("char", NameCp(nm), e + 1) ELSE TBad
    [] c \in {112, 80} ->
                  IF j > Len(p) \/ (j <= Len(p) /\ p[j] # 123) THEN TBad
                  ELSE LET e == Brace(p, j) IN
                       IF e = 0 THEN TBad
                       ELSE LET nm == SubSeq(p, i - 1, e) IN
                            IF PropOk(nm)
                            THEN TS(IF o.ci THEN Ci(PropSet(nm)) ELSE PropSet(nm), e + 1)
                            ELSE TBad
    [] c = 98  -> T("wb", 8, j)
    [] c \in {65, 66, 75, 90} -> T("assert", c, j)
    [] OTHER -> TBad

Syms == {97, 105, 124, 40, 41, 63, 43, 42, 46, 91, 93, 94, 36, 123, 125, 44, 60, 61, 33}
Tok(p, i, o) ==
  IF i > Len(p) THEN T("end", 0, i)
  ELSE LET c == p[i]
           nx == IF i < Len(p) THEN p[i+1] ELSE 0 IN
  IF c < 1 THEN TBad
  ELSE CASE c \in Syms -> T("sym", c, i + 1)
    [] c = 38  -> IF nx = 38 THEN T("aa", c, i + 2) ELSE T("char", c, i + 1)
    [] c = 126 -> IF nx = 126 THEN T("tt", c, i + 2) ELSE T("char", c, i + 1)
    [] c = 45  -> IF i = Len(p) \/ nx = 93 THEN T("char", c, i + 1)
                  ELSE IF nx = 45 THEN T("hh", c, i + 2)
                  ELSE T("sym", c, i + 1)
    [] c = 92  -> Escape(p, i + 1, o)
    [] InR(c, 48, 57) -> T("digit", c, i + 1)
    [] OTHER -> T("char", c, i + 1)

IsSym(t, c) == t.k = "sym" /\ t.c = c

\* ---- results -------------------------------------------------------------
Fail == [ok |-> FALSE]
Good(node, n, o) == [ok |-> TRUE, node |-> node, n |-> n, o |-> o]

\* ---- character classes ---------------------------------------------------
\* within a class: value [s, b], bytes as a finite set
\* dead: a class within it may turn out empty, which is not decided here
\* odd: bytes taken away by a class within it; what becomes of them outside of
\* that class is not laid down anywhere
Operand(s, b, n) == [ok |-> TRUE, s |-> s, b |-> b, n |-> n, add |-> TRUE, dead |-> FALSE, odd |-> FALSE]
CcSym == {97, 105, 124, 40, 41, 63, 43, 42, 46, 123, 125, 44, 60, 61, 33, 36}
IsCcChar(t) == t.k \in {"char", "digit", "wb"} \/ (t.k = "sym" /\ t.c \in CcSym)
IsFirst(t)    == IsCcChar(t) \/ (t.k = "sym" /\ t.c \in {93, 45})   \* ] -
IsNotFirst(t) == IsCcChar(t) \/ (t.k = "sym" /\ t.c = 94)           \* ^

RECURSIVE Class(_, _, _), Atom1(_, _, _, _), Rest(_, _, _, _)
\* one operand at i; first: at the start of a positive class
Atom1(p, i, o, first) ==
  LET t == Tok(p, i, o)
      isch == IF first THEN IsFirst(t) ELSE IsNotFirst(t)
      d == Tok(p, t.n, o)                 \* perhaps a hyphen
      e == Tok(p, d.n, o)                 \* perhaps the end of a range
      cls == Class(p, d.n, o)
  IN
  CASE t.k \in {"bad", "assert", "end", "hh", "aa", "tt"} -> Fail
    [] t.k = "set" -> Operand(t.s, {}, t.n)
    [] IsSym(t, 91) -> Class(p, i, o)
    [] isch ->
         IF IsSym(d, 45) THEN
           IF IsNotFirst(e) THEN
             (IF e.c <= t.c THEN Fail
              ELSE Operand(Rng(t.c, e.c), {}, e.n))
           ELSE IF e.k = "set" THEN
             Operand(Or(e.s, Or(One(t.c), One(45))), {}, e.n)
           ELSE IF IsSym(e, 91) THEN
             (IF cls.ok THEN [cls EXCEPT !.s = Or(cls.s, Or(One(t.c), One(45)))] ELSE Fail)
           ELSE Fail
         ELSE Operand(One(t.c), {}, t.n)
    [] t.k = "byte" ->
         IF IsSym(d, 45) THEN
           IF e.k = "byte" THEN
             (IF e.c <= t.c THEN Fail
              ELSE Operand(None, t.c .. e.c, e.n))
           ELSE IF e.k = "set" THEN
             Operand(Or(e.s, One(45)), {t.c}, e.n)
           ELSE IF IsSym(e, 91) THEN
             (IF cls.ok THEN [cls EXCEPT !.s = Or(cls.s, One(45)), !.b = @ \cup {t.c}] ELSE Fail)
           ELSE Fail
         ELSE Operand(None, {t.c}, t.n)
    [] ~first /\ IsSym(t, 45) -> Operand(One(45), {}, t.n)
    [] OTHER -> Fail

\* further operands and operators up to the closing bracket
Rest(p, i, o, v) ==
  LET t == Tok(p, i, o)
      opr == t.k \in {"aa", "hh", "tt"}
      a == Atom1(p, IF opr THEN t.n ELSE i, o, FALSE)
  IN
  IF IsSym(t, 93) THEN [v EXCEPT !.n = t.n]
  ELSE IF ~a.ok THEN Fail
  ELSE Rest(p, a.n, o,
         [v EXCEPT !.dead = @ \/ a.dead, !.odd = @ \/ a.odd \/ ~a.add,
            !.s = CASE t.k = "aa" -> And(@, a.s)
                    [] t.k = "hh" -> Diff(@, a.s)
                    [] t.k = "tt" -> Xor(@, a.s)
                    [] OTHER      -> Or(@, a.s),
            !.b = CASE t.k = "aa" -> @ \cap a.b
                    [] t.k = "hh" -> @ \ a.b
                    [] t.k = "tt" -> (@ \ a.b) \cup (a.b \ @)
                    [] OTHER      -> @ \cup a.b])

\* a bracketed class at i (its opening bracket)
Class(p, i, o) ==
  LET t == Tok(p, i, o)
      neg == Tok(p, t.n, o).k = "sym" /\ Tok(p, t.n, o).c = 94
      st == IF neg THEN t.n + 1 ELSE t.n
      a == Atom1(p, st, o, ~neg)
      r == IF a.ok THEN Rest(p, a.n, o, [a EXCEPT !.odd = @ \/ ~a.add]) ELSE Fail
      inner == Empty(r.s)                    \* of code points, before closing
      cl == IF inner = "yes" THEN None ELSE Close(r.s, o)
      nt == Not(cl)
  IN
  IF ~IsSym(t, 91) THEN Fail
  ELSE IF ~a.ok \/ ~r.ok THEN Fail
  ELSE IF ~neg THEN
         (IF inner = "yes" /\ r.b = {} THEN Fail
          ELSE [r EXCEPT !.s = cl, !.add = TRUE, !.dead = @ \/ (inner = "maybe" /\ r.b = {})])
  ELSE IF inner # "yes" THEN
         (IF Empty(nt) = "yes" THEN Fail
          ELSE [r EXCEPT !.s = nt, !.add = r.b = {}, !.dead = @ \/ inner = "maybe" \/ Empty(nt) = "maybe",
                         !.odd = @ \/ (inner = "maybe" /\ r.b # {})])
  ELSE IF r.b # {} THEN
         (IF (0..255) \ r.b = {} THEN Fail
          ELSE [r EXCEPT !.s = None, !.b = (0..255) \ r.b, !.add = TRUE])
  ELSE [r EXCEPT !.s = Not(None), !.b = {}, !.add = TRUE]

\* ---- expressions ---------------------------------------------------------
LitSym == {97, 105, 93, 45, 123, 125, 44, 60, 61, 33}
\* a character as a literal
LitNode(c, o) ==
  LET s == Close(One(c), o)
      more == IF ~o.ci THEN FALSE
              ELSE IF o.ascii /\ c < 128 THEN AsciiFold(c) # c
              ELSE Folds(c) # <<>>
  IN  IF more THEN Cls(s, {}, TRUE) ELSE Lit(c)

\* decimal digits from i: [v, n]; v = -1 if there are none, -2 if too large
RECURSIVE Digits(_, _, _, _)
Digits(p, i, v, k) ==
  IF i <= Len(p) /\ InR(p[i], 48, 57)
  THEN IF v = -2 \/ v > 214748363 THEN Digits(p, i + 1, -2, k + 1)
       ELSE Digits(p, i + 1, v * 10 + (p[i] - 48), k + 1)
  ELSE [v |-> IF k = 0 THEN -1 ELSE v, n |-> i]

At(p, i) == IF i <= Len(p) THEN p[i] ELSE 0

\* {n}, {n,} or {n,m} at i (the opening brace)
Bounds(p, i) ==
  LET a == Digits(p, i + 1, 0, 0)
      b == Digits(p, a.n + 1, 0, 0) IN
  IF a.v < 0 THEN Fail
  ELSE IF At(p, a.n) = 125 THEN [ok |-> TRUE, min |-> a.v, max |-> a.v, n |-> a.n + 1]
  ELSE IF At(p, a.n) # 44 THEN Fail
  ELSE IF At(p, a.n + 1) = 125 THEN [ok |-> TRUE, min |-> a.v, max |-> Unbounded, n |-> a.n + 2]
  ELSE IF b.v < 0 \/ At(p, b.n) # 125 \/ a.v > b.v THEN Fail
  ELSE [ok |-> TRUE, min |-> a.v, max |-> b.v, n |-> b.n + 1]

\* what may follow an atom
Quantify(p, x, i, o) ==
  LET t == Tok(p, i, o)
      q == IF t.k # "sym" THEN Fail
           ELSE CASE t.c = 42 -> [ok |-> TRUE, min |-> 0, max |-> Unbounded, n |-> t.n]
                  [] t.c = 43 -> [ok |-> TRUE, min |-> 1, max |-> Unbounded, n |-> t.n]
                  [] t.c = 63 -> [ok |-> TRUE, min |-> 0, max |-> 1, n |-> t.n]
                  [] t.c = 123 -> Bounds(p, i)
                  [] OTHER -> Fail
      lazy == q.ok /\ At(p, q.n) = 63
  IN
  IF t.k = "sym" /\ t.c \in {42, 43, 63, 123}
  THEN IF q.ok THEN Good(Rep(x, q.min, q.max, ~lazy), IF lazy THEN q.n + 1 ELSE q.n, o)
       ELSE Fail
  ELSE Good(x, i, o)

\* switches after "(?": the options they yield and the index past ")"
RECURSIVE SwOn(_, _, _, _), SwOff(_, _, _, _)
SwOff(p, i, o, k) ==
  CASE At(p, i) = 97  -> SwOff(p, i + 1, [o EXCEPT !.ascii = FALSE], k + 1)
    [] At(p, i) = 105 -> SwOff(p, i + 1, [o EXCEPT !.ci = FALSE], k + 1)
    [] At(p, i) = 41 /\ k > 0 -> [ok |-> TRUE, o |-> o, n |-> i + 1]
    [] OTHER -> Fail
SwOn(p, i, o, k) ==
  CASE At(p, i) = 97  -> SwOn(p, i + 1, [o EXCEPT !.ascii = TRUE], k + 1)
    [] At(p, i) = 105 -> SwOn(p, i + 1, [o EXCEPT !.ci = TRUE], k + 1)
    [] At(p, i) = 41 /\ k > 0 -> [ok |-> TRUE, o |-> o, n |-> i + 1]
    [] At(p, i) = 45 -> SwOff(p, i + 1, o, 0)
    [] OTHER -> Fail
Switch(p, i, o) ==   \* at i: is this a switch?
  IF At(p, i) = 40 /\ At(p, i + 1) = 63 THEN SwOn(p, i + 2, o, 0) ELSE Fail

RECURSIVE AltP(_, _, _), CatP(_, _, _), AltRest(_, _, _, _), CatRest(_, _, _, _), RepP(_, _, _)
RepP(p, i, o) ==
  LET t == Tok(p, i, o) IN
  CASE t.k \in {"bad", "end", "assert", "wb"} -> Fail
    [] t.k = "char" \/ t.k = "digit" \/ (t.k = "sym" /\ t.c \in LitSym) ->
         Quantify(p, LitNode(t.c, o), t.n, o)
    [] t.k = "byte" -> Quantify(p, Byte(t.c), t.n, o)
    [] t.k = "set"  -> Quantify(p, Cls(t.s, {}, TRUE), t.n, o)
    [] t.k \in {"hh", "aa", "tt"} -> Quantify(p, Cat(Lit(t.c), Lit(t.c)), t.n, o)
    [] IsSym(t, 46) -> Quantify(p, Dot, t.n, o)
    [] IsSym(t, 91) ->
         LET c == Class(p, i, o) IN
         IF c.ok THEN Quantify(p, [Cls(c.s, c.b, c.add) EXCEPT !.dead = c.dead, !.odd = c.odd], c.n, o) ELSE Fail
    [] IsSym(t, 40) ->
         \* no group starts with "?": switches are taken elsewhere, the rest
         \* are assertions or errors
         IF At(p, t.n) = 63 THEN Fail
         ELSE LET g == AltP(p, t.n, o) IN
              IF g.ok /\ At(p, g.n) = 41 THEN Quantify(p, g.node, g.n + 1, o) ELSE Fail
    [] OTHER -> Fail

\* one or more repetitions; switches may follow any of them
CatP(p, i, o) ==
  LET r == RepP(p, i, o) IN IF r.ok THEN CatRest(p, r.n, r.o, r.node) ELSE Fail
CatRest(p, i, o, acc) ==
  LET s == Switch(p, i, o)
      r == RepP(p, i, o) IN
  IF i > Len(p) \/ At(p, i) \in {124, 41} THEN Good(acc, i, o)
  ELSE IF s.ok THEN CatRest(p, s.n, s.o, acc)
  ELSE IF r.ok THEN CatRest(p, r.n, r.o, Cat(acc, r.node))
  ELSE Fail

\* alternatives; switches may stand before the first
AltP(p, i, o) ==
  LET s == Switch(p, i, o)
      c == CatP(p, i, o) IN
  IF s.ok THEN AltP(p, s.n, s.o)
  ELSE IF c.ok THEN AltRest(p, c.n, c.o, c.node) ELSE Fail
AltRest(p, i, o, acc) ==
  IF At(p, i) = 124
  THEN LET c == CatP(p, i + 1, o) IN
       IF c.ok THEN AltRest(p, c.n, c.o, Alt(acc, c.node)) ELSE Fail
  ELSE Good(acc, i, o)

RECURSIVE LitAll(_, _, _, _)
LitAll(p, i, o, acc) ==
  IF i > Len(p) THEN acc ELSE LitAll(p, i + 1, o, Cat(acc, LitNode(p[i], o)))

Parse(bytes, fixed, ci, uni) ==
  LET p == Utf8Decode(bytes)
      o == [ci |-> ci, ascii |-> ~uni]
      r == AltP(p, 1, o)
  IN
  IF p = <<>> \/ \E k \in DOMAIN p : p[k] < 1 THEN Fail
  ELSE IF fixed THEN [ok |-> TRUE, node |-> LitAll(p, 2, o, LitNode(p[1], o))]
  ELSE IF r.ok /\ r.n = Len(p) + 1 THEN [ok |-> TRUE, node |-> r.node]
  ELSE Fail

\* ---- properties of trees -------------------------------------------------
RECURSIVE Nullable(_), HasZero(_)
Nullable(x) ==
  CASE x.t = "cat" -> Nullable(x.l) /\ Nullable(x.r)
    [] x.t = "alt" -> Nullable(x.l) \/ Nullable(x.r)
    [] x.t = "rep" -> x.min = 0 \/ Nullable(x.x)
    [] OTHER -> FALSE
\* Something in the tree cannot take part in any match, because it is
\* repeated zero times; whether such a thing may be ill-formed is left open.
HasZero(x) ==
  CASE x.t \in {"cat", "alt"} -> HasZero(x.l) \/ HasZero(x.r)
    [] x.t = "rep" -> x.max = 0 \/ HasZero(x.x)
    [] OTHER -> FALSE
=============================================================================
