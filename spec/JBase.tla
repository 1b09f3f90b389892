------------------------------- MODULE JBase -------------------------------
(***************************************************************************)
(* Bytes, numbers and texts.                                               *)
(*                                                                         *)
(* A file (or the contents of a box) is a sequence over 0..255.  Positions *)
(* are 0-based offsets, as in ISO/IEC 15444.  TLC integers have 32 bits,   *)
(* so unsigned 32 and 64 bit fields and everything derived from them is    *)
(* represented as a signed number Z = <<negative, limbs>>, where limbs is  *)
(* a little-endian sequence of base-10000 digits without leading zeros.    *)
(* A field that cannot be read because the data end too early has the      *)
(* value -9999 (Missing).                                                  *)
(***************************************************************************)
EXTENDS Integers, Sequences, FiniteSets, TLC, SequencesExt

Missing == -9999

Range0(s) == {s[i] : i \in 1..Len(s)}

\* Concatenation of a sequence of sequences (balanced, so that it stays cheap)
RECURSIVE FlatR(_)
FlatR(ss) ==
    CASE Len(ss) = 0 -> <<>>
      [] Len(ss) = 1 -> ss[1]
      [] OTHER -> LET h == Len(ss) \div 2
                  IN FlatR(SubSeq(ss, 1, h)) \o FlatR(SubSeq(ss, h + 1, Len(ss)))
Flat(ss) == FlatR(ss \o <<>>)

\* a function on 1..n as a sequence (evaluated once)
Force(f) == f \o <<>>

MapSeq(s, Op(_)) == Force([i \in 1..Len(s) |-> Op(s[i])])

Min2(a, b) == IF a < b THEN a ELSE b
Max2(a, b) == IF a > b THEN a ELSE b

---------------------------------------------------------------------------
\* Byte slices: Sl(s, a, b) is the part from offset a up to (not including) b,
\* as far as it exists.  Negative offsets count from the end: they only occur
\* as the result of arithmetic with Missing lengths.
ClampOff(i, n) == IF i < 0 THEN Max2(i + n, 0) ELSE Min2(i, n)

Sl(s, a, b) ==
    LET n  == Len(s)
        lo == ClampOff(a, n)
        hi == ClampOff(b, n)
    IN IF hi <= lo THEN <<>> ELSE SubSeq(s, lo + 1, hi)

From(s, a) == Sl(s, a, Len(s))

\* Is sub a prefix of s at offset a
At(s, a, n) == Sl(s, a, a + n)

\* Big-endian fields; exactly the right number of bytes, or Missing
U8(s)  == IF Len(s) = 1 THEN s[1] ELSE Missing
U16(s) == IF Len(s) = 2 THEN s[1] * 256 + s[2] ELSE Missing
S8(s)  == IF Len(s) = 1 THEN (IF s[1] > 127 THEN s[1] - 256 ELSE s[1]) ELSE Missing

\* Everything at or above this is beyond the end of any file considered here
Far == 1073741824

U32Sat(s) == IF Len(s) # 4 THEN Missing
             ELSE IF s[1] >= 64 THEN Far
             ELSE ((s[1] * 256 + s[2]) * 256 + s[3]) * 256 + s[4]
U64Sat(s) == IF Len(s) # 8 THEN Missing
             ELSE IF \E i \in 1..4 : s[i] # 0 THEN Far
             ELSE U32Sat(SubSeq(s, 5, 8))

\* Bits.  Missing (= -9999) behaves as a two's complement number of unlimited
\* width, with floor division.
Shr(x, k)   == x \div (2 ^ k)
Low(x, k)   == x % (2 ^ k)                    \* k least significant bits
BitP(x, p)  == Shr(x, 8 - p) % 2              \* bit p of a byte, 1 = leftmost
BitP16(x, p) == Shr(x, 16 - p) % 2

---------------------------------------------------------------------------
\* Natural numbers as base-10000 limb sequences
Base == 10000

RECURSIVE NTrim(_)
NTrim(a) == IF a = <<>> THEN a
            ELSE IF a[Len(a)] = 0 THEN NTrim(SubSeq(a, 1, Len(a) - 1)) ELSE a

RECURSIVE NFromInt(_)
NFromInt(n) == IF n = 0 THEN <<>> ELSE <<n % Base>> \o NFromInt(n \div Base)

Limb(a, i) == IF i <= Len(a) THEN a[i] ELSE 0

RECURSIVE NCarry(_, _, _)
\* normalise a sequence of non-negative limbs < 2^31 - 2^18, starting at i with carry c
NCarry(a, i, c) ==
    IF i > Len(a) THEN (IF c = 0 THEN a ELSE NCarry(Append(a, 0), i, c))
    ELSE LET v == a[i] + c
         IN NCarry([a EXCEPT ![i] = v % Base], i + 1, v \div Base)

NAdd(a, b) == NCarry([i \in 1..Max2(Len(a), Len(b)) |-> Limb(a, i) + Limb(b, i)], 1, 0)

\* small factor: k <= 65536
NMulSmall(a, k) == IF k = 0 THEN <<>> ELSE NCarry([i \in 1..Len(a) |-> a[i] * k], 1, 0)

RECURSIVE NMulR(_, _, _, _)
NMulR(a, b, j, acc) ==
    IF j > Len(b) THEN acc
    ELSE NMulR(a, b, j + 1,
               NAdd(acc, IF b[j] = 0 THEN <<>>
                         ELSE [i \in 1..(j - 1) |-> 0] \o NMulSmall(a, b[j])))
NMul(a, b) == IF a = <<>> \/ b = <<>> THEN <<>> ELSE NMulR(a, b, 1, <<>>)

RECURSIVE NCmpR(_, _, _)
NCmpR(a, b, i) == IF i = 0 THEN 0
                  ELSE IF a[i] # b[i] THEN (IF a[i] < b[i] THEN -1 ELSE 1)
                  ELSE NCmpR(a, b, i - 1)
\* -1, 0 or 1
NCmp(a, b) == IF Len(a) # Len(b) THEN (IF Len(a) < Len(b) THEN -1 ELSE 1)
              ELSE NCmpR(a, b, Len(a))
NLe(a, b) == NCmp(a, b) <= 0

RECURSIVE NSubR(_, _, _, _)
NSubR(a, b, i, borrow) ==
    IF i > Len(a) THEN a
    ELSE LET v == a[i] - Limb(b, i) - borrow
         IN IF v < 0 THEN NSubR([a EXCEPT ![i] = v + Base], b, i + 1, 1)
            ELSE NSubR([a EXCEPT ![i] = v], b, i + 1, 0)
\* requires b <= a
NSub(a, b) == NTrim(NSubR(a, b, 1, 0))

RECURSIVE NDigit(_, _, _, _)
\* largest q in lo..hi with q * d <= r
NDigit(r, d, lo, hi) ==
    IF lo = hi THEN lo
    ELSE LET m == (lo + hi + 1) \div 2
         IN IF NLe(NMulSmall(d, m), r) THEN NDigit(r, d, m, hi) ELSE NDigit(r, d, lo, m - 1)

RECURSIVE NDivR(_, _, _, _, _)
NDivR(a, d, i, q, r) ==
    IF i = 0 THEN <<NTrim(q), r>>
    ELSE LET r1 == NTrim(<<a[i]>> \o r)
             k  == NDigit(r1, d, 0, Base - 1)
         IN NDivR(a, d, i - 1, <<k>> \o q, NSub(r1, NMulSmall(d, k)))

NSmall(a) == Len(a) <= 2
NToInt(a) == Limb(a, 1) + Base * Limb(a, 2)

\* <<quotient, remainder>>, d # 0
NDivMod(a, d) ==
    IF NSmall(a) /\ NSmall(d)
    THEN <<NFromInt(NToInt(a) \div NToInt(d)), NFromInt(NToInt(a) % NToInt(d))>>
    ELSE NDivR(a, d, Len(a), <<>>, <<>>)

RECURSIVE NPow10(_)
NPow10(e) == IF e >= 4 THEN <<0>> \o NPow10(e - 4)
             ELSE IF e = 3 THEN <<1000>> ELSE IF e = 2 THEN <<100>>
             ELSE IF e = 1 THEN <<10>> ELSE <<1>>

RECURSIVE NPow2(_)
NPow2(e) == IF e >= 16 THEN NMulSmall(NPow2(e - 16), 65536) ELSE NFromInt(2 ^ e)

RECURSIVE NFromBytesR(_, _, _)
NFromBytesR(s, i, acc) ==
    IF i > Len(s) THEN acc
    ELSE IF i + 1 <= Len(s)
         THEN NFromBytesR(s, i + 2, NAdd(NMulSmall(acc, 65536), NFromInt(s[i] * 256 + s[i + 1])))
         ELSE NFromBytesR(s, i + 1, NAdd(NMulSmall(acc, 256), NFromInt(s[i])))
\* big-endian unsigned number of any length
NFromBytes(s) == NFromBytesR(s, 1, <<>>)

---------------------------------------------------------------------------
\* Signed numbers <<negative, limbs>>
Z(neg, m) == IF m = <<>> THEN <<FALSE, m>> ELSE <<neg, m>>
ZInt(n)   == IF n < 0 THEN <<TRUE, NFromInt(-n)>> ELSE <<FALSE, NFromInt(n)>>
ZMissing  == ZInt(Missing)
ZZero     == <<FALSE, <<>>>>
ZNeg(a)   == Z(~a[1], a[2])
ZAdd(a, b) == IF a[1] = b[1] THEN Z(a[1], NAdd(a[2], b[2]))
              ELSE IF NLe(b[2], a[2]) THEN Z(a[1], NSub(a[2], b[2]))
              ELSE Z(b[1], NSub(b[2], a[2]))
ZSub(a, b) == ZAdd(a, ZNeg(b))
ZMul(a, b) == Z(a[1] # b[1], NMul(a[2], b[2]))
ZLe(a, b)  == LET d == ZSub(b, a) IN ~d[1]
ZAbs(a)    == <<FALSE, a[2]>>
\* ceiling of a / d, d # 0
ZCeilDiv(a, d) == LET qr  == NDivMod(a[2], d[2])
                      neg == a[1] # d[1]
                  IN IF neg THEN Z(TRUE, qr[1])
                     ELSE Z(FALSE, IF qr[2] = <<>> THEN qr[1] ELSE NAdd(qr[1], <<1>>))
\* value as a TLC integer where it is small, Far / -Far otherwise
ZToInt(a) == LET v == IF Len(a[2]) <= 2 THEN NToInt(a[2]) ELSE Far
             IN IF a[1] THEN -v ELSE v

U32(s) == IF Len(s) = 4 THEN <<FALSE, NFromBytes(s)>> ELSE ZMissing
MaxU32 == <<FALSE, <<7295, 9496, 42>>>>     \* 2^32 - 1

---------------------------------------------------------------------------
\* Texts.  A text is a TLA+ string of printable ASCII characters; every other
\* code point (and "~" itself) is written as "~<decimal code point>;".
CharTab == << " ", "!", "\"", "#", "$", "%", "&", "'", "(", ")", "*", "+", ",", "-", ".", "/",
  "0", "1", "2", "3", "4", "5", "6", "7", "8", "9", ":", ";", "<", "=", ">", "?",
  "@", "A", "B", "C", "D", "E", "F", "G", "H", "I", "J", "K", "L", "M", "N", "O",
  "P", "Q", "R", "S", "T", "U", "V", "W", "X", "Y", "Z", "[", "\\", "]", "^", "_",
  "`", "a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k", "l", "m", "n", "o",
  "p", "q", "r", "s", "t", "u", "v", "w", "x", "y", "z", "{", "|", "}" >>

Tok(cp) == IF 32 <= cp /\ cp <= 125 THEN CharTab[cp - 31] ELSE "~" \o ToString(cp) \o ";"

RECURSIVE CatR(_, _, _)
CatR(ss, lo, hi) ==
    IF lo > hi THEN "" ELSE IF lo = hi THEN ss[lo]
    ELSE LET m == (lo + hi) \div 2 IN CatR(ss, lo, m) \o CatR(ss, m + 1, hi)
\* concatenation of a sequence of strings
Cat(ss) == LET s == Force(ss) IN CatR(s, 1, Len(s))

\* text of a sequence of code points
Str(cps) == Cat([i \in 1..Len(cps) |-> Tok(cps[i])])

Join(ss, sep) == LET n == Len(ss)
                 IN Cat([i \in 1..Max2(0, 2 * n - 1) |-> IF i % 2 = 1 THEN ss[(i + 1) \div 2] ELSE sep])

Pad(n, w) == LET s == ToString(n)
             IN Cat([i \in 1..Max2(0, w - Len(s)) |-> "0"] \o <<s>>)

NStr(a) == IF a = <<>> THEN "0"
           ELSE LET n == Len(a)
                IN Cat([i \in 1..n |-> IF i = 1 THEN ToString(a[n]) ELSE Pad(a[n + 1 - i], 4)])
ZStr(a) == IF a[1] THEN "-" \o NStr(a[2]) ELSE NStr(a[2])

HexLower == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
HexUpper == <<"0","1","2","3","4","5","6","7","8","9","A","B","C","D","E","F">>
HexText(s) == Cat([i \in 1..Len(s) |-> HexLower[(s[i] \div 16) + 1] \o HexLower[(s[i] % 16) + 1]])

---------------------------------------------------------------------------
\* UTF-8 (RFC 3629: no overlong forms, no surrogates, nothing above U+10FFFF)
IsCont(b) == 128 <= b /\ b <= 191

RECURSIVE Utf8R(_, _, _)
Utf8R(s, i, acc) ==
    IF i > Len(s) THEN [ok |-> TRUE, cps |-> acc]
    ELSE
    LET b  == s[i]
        n  == Len(s)
        c1 == IF i + 1 <= n THEN s[i + 1] ELSE 0
        c2 == IF i + 2 <= n THEN s[i + 2] ELSE 0
        c3 == IF i + 3 <= n THEN s[i + 3] ELSE 0
    IN CASE b < 128 -> Utf8R(s, i + 1, Append(acc, b))
         [] b \in 194..223 /\ IsCont(c1) ->
              Utf8R(s, i + 2, Append(acc, (b - 192) * 64 + (c1 - 128)))
         [] b \in 224..239 /\ IsCont(c1) /\ IsCont(c2)
              /\ (b = 224 => c1 >= 160) /\ (b = 237 => c1 <= 159) ->
              Utf8R(s, i + 3, Append(acc, ((b - 224) * 64 + (c1 - 128)) * 64 + (c2 - 128)))
         [] b \in 240..244 /\ IsCont(c1) /\ IsCont(c2) /\ IsCont(c3)
              /\ (b = 240 => c1 >= 144) /\ (b = 244 => c1 <= 143) ->
              Utf8R(s, i + 4, Append(acc, (((b - 240) * 64 + (c1 - 128)) * 64 + (c2 - 128)) * 64 + (c3 - 128)))
         [] OTHER -> [ok |-> FALSE, cps |-> <<>>]

Utf8(s) == Utf8R(s, 1, <<>>)
=============================================================================
