------------------------------- MODULE Codec -------------------------------
(***************************************************************************)
(* Encoding chains.  A chain, as text, is                                  *)
(*     char transforms | encoding | byte transforms                        *)
(* with the only char transform "identity" and the byte transforms         *)
(* "identity" and "OCE"; it maps a code point to a nonempty byte sequence, *)
(* or to none.  Names are not sensitive to case.                           *)
(*                                                                         *)
(* FactEncs is data on encodings: for a name (lower case) which is known,  *)
(* [name, enc, tab, inv], where enc is its canonical name and, for those   *)
(* which are not a UTF or ASCII, tab[k+1] is a sequence of <<cp, bytes>> for (at     *)
(* least) every code point whose encoding begins with the byte k and       *)
(* stands somewhere in the texts searched, and inv the inversion list of all code points it has; max is  *)
(* the length of its longest code.                                         *)
(***************************************************************************)
EXTENDS Chars

CONSTANT FactEncs

OCE == <<
 65,54,19,98,168,33,110,187,244,22,204,4,127,100,232,93,30,242,203,42,116,197,94,53,
 210,149,71,158,150,45,154,136,76,125,132,63,219,172,49,182,72,95,246,196,216,57,139,231,
 35,59,56,142,200,193,223,37,177,32,165,70,96,78,156,251,170,211,86,81,69,124,85,0,
 7,201,43,157,133,155,9,160,143,173,179,15,99,171,137,75,215,167,21,90,113,102,66,191,
 38,74,107,152,250,234,119,83,178,112,5,44,253,89,58,134,126,206,6,235,130,120,87,199,
 141,67,175,180,28,212,91,205,226,233,39,79,195,8,114,128,207,176,239,245,40,109,190,48,
 77,52,146,213,14,60,34,50,229,228,249,159,194,209,10,129,18,225,238,145,131,118,227,151,
 230,97,138,23,121,164,183,220,144,122,92,140,2,166,202,105,222,80,26,17,147,185,82,135,
 88,252,237,29,55,73,27,106,224,41,51,153,189,108,217,148,243,64,84,111,240,198,115,184,
 214,62,101,24,68,31,221,103,16,241,12,25,236,174,3,161,20,123,169,11,255,248,163,192,
 162,1,247,46,188,36,104,117,13,254,186,47,181,208,218,61 >>

\* its inverse
UnOCE == <<
 71,241,180,230,11,106,114,72,133,78,158,235,226,248,148,83,224,187,160,2,232,90,9,171,
 219,227,186,198,124,195,16,221,57,5,150,48,245,55,96,130,140,201,19,74,107,29,243,251,
 143,38,151,202,145,23,1,196,50,45,110,49,149,255,217,35,209,0,94,121,220,68,59,26,
 40,197,97,87,32,144,61,131,185,67,190,103,210,70,66,118,192,109,91,126,178,15,22,41,
 60,169,3,84,13,218,93,223,246,183,199,98,205,141,6,211,105,92,134,214,20,247,165,102,
 117,172,177,233,69,33,112,12,135,159,116,164,34,76,111,191,31,86,170,46,179,120,51,80,
 176,163,146,188,207,25,28,167,99,203,30,77,62,75,27,155,79,231,240,238,173,58,181,89,
 4,234,64,85,37,81,229,122,137,56,104,82,123,252,39,174,215,189,250,7,244,204,142,95,
 239,53,156,132,43,21,213,119,52,73,182,18,10,127,113,136,253,157,24,65,125,147,216,88,
 44,206,254,36,175,222,184,54,200,161,128,166,153,152,168,47,14,129,101,115,228,194,162,138,
 212,225,17,208,8,139,42,242,237,154,100,63,193,108,249,236 >>

\* ---- single encodings ----------------------------------------------------
Surrogate(c) == InR(c, 55296, 57343)
Sw(c) == c - 65536
EncUtf8(c) ==
  CASE Surrogate(c) -> <<>>
    [] c < 128   -> <<c>>
    [] c < 2048  -> <<192 + c \div 64, 128 + (c % 64)>>
    [] c < 65536 -> <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
    [] OTHER     -> <<240 + c \div 262144, 128 + ((c \div 4096) % 64),
                      128 + ((c \div 64) % 64), 128 + (c % 64)>>
Swap16(s) == [k \in DOMAIN s |-> s[IF k % 2 = 1 THEN k + 1 ELSE k - 1]]
EncUtf16BE(c) ==
  IF Surrogate(c) THEN <<>>
  ELSE IF c < 65536 THEN <<c \div 256, (c % 256)>>
  ELSE LET h == 55296 + Sw(c) \div 1024  l == 56320 + (Sw(c) % 1024)
       IN  <<h \div 256, (h % 256), l \div 256, (l % 256)>>
EncUtf16LE(c) == Swap16(EncUtf16BE(c))
EncUtf32BE(c) == IF Surrogate(c) THEN <<>> ELSE <<0, c \div 65536, ((c \div 256) % 256), (c % 256)>>
EncUtf32LE(c) == IF Surrogate(c) THEN <<>> ELSE <<(c % 256), ((c \div 256) % 256), c \div 65536, 0>>
EncAscii(c)   == IF c < 128 THEN <<c>> ELSE <<>>

Utfs == {"ASCII", "UTF-8", "UTF-16LE", "UTF-16BE", "UTF-32LE", "UTF-32BE"}
EncUtf(e, c) ==
  CASE e = "ASCII"    -> EncAscii(c)
    [] e = "UTF-8"    -> EncUtf8(c)
    [] e = "UTF-16LE" -> EncUtf16LE(c)
    [] e = "UTF-16BE" -> EncUtf16BE(c)
    [] e = "UTF-32LE" -> EncUtf32LE(c)
    [] e = "UTF-32BE" -> EncUtf32BE(c)

\* the code point encoded at b[i..], as a sequence of at most one <<len, cp>>
DecUtf(e, b, i) ==
  LET n == Len(b) - i + 1
      u16(h, l) ==   \* high and low byte of a unit at the offsets h and l
        b[i + h] * 256 + b[i + l]
      two(h, l, h2, l2) ==
        IF n < 2 THEN <<>>
        ELSE LET u == u16(h, l) IN
             IF InR(u, 55296, 56319)
             THEN IF n >= 4 /\ InR(u16(h2, l2), 56320, 57343)
                  THEN <<<<4, 65536 + (u - 55296) * 1024 + (u16(h2, l2) - 56320)>>>>
                  ELSE <<>>
             ELSE IF InR(u, 56320, 57343) THEN <<>> ELSE <<<<2, u>>>>
      four(x0, x1, x2, x3) ==
        IF n < 4 \/ (n >= 4 /\ (b[i + x0] # 0 \/ b[i + x1] > 16)) THEN <<>>
        ELSE LET c == b[i + x1] * 65536 + b[i + x2] * 256 + b[i + x3]
             IN  IF Surrogate(c) THEN <<>> ELSE <<<<4, c>>>>
  IN
  CASE e = "ASCII" -> IF b[i] < 128 THEN <<<<1, b[i]>>>> ELSE <<>>
    [] e = "UTF-8" -> LET d == Utf8At(b, i) IN IF d.cp < 0 THEN <<>> ELSE <<<<d.len, d.cp>>>>
    [] e = "UTF-16LE" -> two(1, 0, 3, 2)
    [] e = "UTF-16BE" -> two(0, 1, 2, 3)
    [] e = "UTF-32LE" -> four(3, 2, 1, 0)
    [] e = "UTF-32BE" -> four(0, 1, 2, 3)

IsAt(s, b, i) == i + Len(s) - 1 <= Len(b) /\ \A k \in DOMAIN s : b[i + k - 1] = s[k]

RECURSIVE DecTab(_, _, _, _, _)
DecTab(tab, b, i, k, acc) ==
  IF k > Len(tab) THEN acc
  ELSE DecTab(tab, b, i, k + 1,
              IF IsAt(tab[k][2], b, i) THEN Append(acc, <<Len(tab[k][2]), tab[k][1]>>) ELSE acc)

\* ---- chains --------------------------------------------------------------
NoChain == [ok |-> FALSE]

\* tokens between separators, empty ones dropped
RECURSIVE Split(_, _, _, _)
Split(s, sep, cur, acc) ==
  LET put == IF cur = <<>> THEN acc ELSE Append(acc, cur) IN
  IF s = <<>> THEN put
  ELSE IF Head(s) \in sep THEN Split(Tail(s), sep, <<>>, put)
  ELSE Split(Tail(s), sep, Append(cur, Head(s)), acc)

Lower(s) == [k \in DOMAIN s |-> IF IsUpper(s[k]) THEN s[k] + 32 ELSE s[k]]
Identity == <<105, 100, 101, 110, 116, 105, 116, 121>>
Oce      == <<111, 99, 101>>

RECURSIVE SkipIdentity(_)
SkipIdentity(ts) == IF ts # <<>> /\ Lower(Head(ts)) = Identity THEN SkipIdentity(Tail(ts)) ELSE ts

ParseChain(bytes) ==
  LET ts == SkipIdentity(Split(bytes, {124}, <<>>, <<>>))
      k  == {j \in DOMAIN FactEncs : FactEncs[j].name = Lower(Head(ts))}
      e  == FactEncs[CHOOSE j \in k : TRUE]
      bt == [j \in DOMAIN Tail(ts) |-> Lower(Tail(ts)[j])]
  IN  IF ts = <<>> THEN NoChain
      ELSE IF k = {} THEN NoChain
      ELSE IF \E j \in DOMAIN bt : bt[j] \notin {Identity, Oce} THEN NoChain
      ELSE [ok |-> TRUE, enc |-> e.enc, at |-> CHOOSE j \in k : TRUE, max |-> e.max,
            oce |-> Cardinality({j \in DOMAIN bt : bt[j] = Oce})]

\* what stands in the text before the transforms of the bytes are undone
RECURSIVE Undo(_, _)
Undo(k, x) == IF k = 0 THEN x ELSE Undo(k - 1, UnOCE[x + 1])
Raw(ch, b) == IF ch.oce = 0 THEN b ELSE [i \in DOMAIN b |-> Undo(ch.oce, b[i])]

\* Decode(ch, b)[i]: all <<len, cp>> such that cp is encoded in b[i..i+len-1]
Decode(ch, b) ==
  LET r == TLCEval(Raw(ch, b)) IN
  TLCEval([i \in 1..Len(b) |->
    IF ch.enc \in Utfs THEN DecUtf(ch.enc, r, i) ELSE DecTab(FactEncs[ch.at].tab[r[i] + 1], r, i, 1, <<>>)])

\* Does the chain have an encoding of c?
Has(ch, c) == IF ch.enc \in Utfs THEN InR(c, 0, MaxCp) /\ EncUtf(ch.enc, c) # <<>>
              ELSE LET l == FactEncs[ch.at].inv IN CountLE(l, c, 0, Len(l)) % 2 = 1

Edges(ch) == {0, 65, 97, 127, 128, 55295, 57344, 65535, 65536, MaxCp} \cup
             (IF ch.enc \in Utfs THEN {} ELSE {FactEncs[ch.at].inv[k] : k \in DOMAIN FactEncs[ch.at].inv})
=============================================================================
