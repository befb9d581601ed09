-------------------------------- MODULE Prim --------------------------------
(* Representation layer of the fuel-tx specification.                        *)
(*                                                                           *)
(*   byte string   lowercase hexadecimal TLA+ string, two digits per byte    *)
(*   u64 word      16 hexadecimal digits                                     *)
(*   natural       hexadecimal string of at least 16 digits without excess   *)
(*                 leading zeros (so a natural fits u64 iff it has 16)       *)
(*                                                                           *)
(* Everything below except Sha256, EcRecover and Emit is defined in TLA+.    *)
(* For speed TLC replaces the operators marked (J) by the Java methods of    *)
(* the same name in Prim.java; MCPrim checks these against the definitions   *)
(* (the *Def twins) and against published test vectors.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC

Digits == <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f">>
DigitOf(n) == Digits[n + 1]
DigitVal(c) == CHOOSE n \in 0..15 : Digits[n + 1] = c

(***************************** total comparisons ****************************)
\* (J) total equality: values of different kinds are different, never an error
Eq(a, b) == a = b
\* (J) total field access
Has(r, k) == k \in DOMAIN r
Get(r, k) == IF k \in DOMAIN r THEN r[k] ELSE "\\missing"

(********************************* strings **********************************)
RECURSIVE CatDef(_)
CatDef(s) == IF s = <<>> THEN "" ELSE s[1] \o CatDef(Tail(s))
Cat(s) == CatDef(s)                                                    \* (J)
RECURSIVE RepDef(_, _)
RepDef(s, n) == IF n = 0 THEN "" ELSE s \o RepDef(s, n - 1)
Rep(s, n) == RepDef(s, n)                                              \* (J)

ByteLen(h) == Len(h) \div 2
\* n bytes of h from byte offset p (which must lie inside h)
Bytes(h, p, n) == SubSeq(h, 2 * p + 1, 2 * (p + n))
From(h, p) == SubSeq(h, 2 * p + 1, Len(h))
PadLen(n) == ((n + 7) \div 8) * 8
Pad(h) == h \o Rep("00", PadLen(ByteLen(h)) - ByteLen(h))
StartsWith(h, p) == Len(h) >= Len(p) /\ SubSeq(h, 1, Len(p)) = p
Zeros(n) == Rep("00", n)
Zero32 == "0000000000000000000000000000000000000000000000000000000000000000"
ZeroW == "0000000000000000"
MaxW == "ffffffffffffffff"

\* lexicographic order of hexadecimal strings of equal length
RECURSIVE HexLtDef(_, _)
HexLtDef(a, b) ==
  IF a = "" THEN FALSE
  ELSE LET x == DigitVal(SubSeq(a, 1, 1))  y == DigitVal(SubSeq(b, 1, 1)) IN
       IF x = y THEN HexLtDef(SubSeq(a, 2, Len(a)), SubSeq(b, 2, Len(b))) ELSE x < y
HexLt(a, b) == HexLtDef(a, b)                                          \* (J)

(********************************* naturals *********************************)
(* Schoolbook arithmetic on little-endian digit sequences in base 16.        *)
RECURSIVE Strip(_)
Strip(h) == IF Len(h) > 16 /\ SubSeq(h, 1, 1) = "0" THEN Strip(SubSeq(h, 2, Len(h))) ELSE h
Norm(h) == IF Len(h) < 16 THEN Rep("0", 16 - Len(h)) \o h ELSE Strip(h)
LimbsOf(h) == [k \in 1..Len(h) |-> DigitVal(SubSeq(h, Len(h) + 1 - k, Len(h) + 1 - k))]
RECURSIVE HexOf(_)
HexOf(l) == IF l = <<>> THEN "" ELSE HexOf(Tail(l)) \o DigitOf(l[1])
Limb(l, k) == IF k <= Len(l) THEN l[k] ELSE 0
Max2(a, b) == IF a >= b THEN a ELSE b

RECURSIVE AddL(_, _, _, _)
AddL(a, b, k, c) ==
  IF k > Max2(Len(a), Len(b)) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == Limb(a, k) + Limb(b, k) + c IN <<s % 16>> \o AddL(a, b, k + 1, s \div 16)
NAddDef(x, y) == Norm(HexOf(AddL(LimbsOf(x), LimbsOf(y), 1, 0)))
NAdd(x, y) == NAddDef(x, y)                                            \* (J)

NLtDef(x, y) == LET a == Norm(x)  b == Norm(y) IN
                IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE HexLtDef(a, b)
NLt(x, y) == NLtDef(x, y)                                              \* (J)
NLe(x, y) == ~ NLt(y, x)

RECURSIVE SubL(_, _, _, _)
SubL(a, b, k, c) ==
  IF k > Len(a) THEN <<>>
  ELSE LET s == Limb(a, k) - Limb(b, k) - c IN
       IF s >= 0 THEN <<s>> \o SubL(a, b, k + 1, 0) ELSE <<s + 16>> \o SubL(a, b, k + 1, 1)
NSubDef(x, y) == Norm(HexOf(SubL(LimbsOf(x), LimbsOf(y), 1, 0)))        \* needs y <= x
NSub(x, y) == NSubDef(x, y)                                            \* (J)

RECURSIVE MulDigit(_, _, _, _)
MulDigit(a, d, k, c) ==
  IF k > Len(a) THEN (IF c = 0 THEN <<>> ELSE <<c>>)
  ELSE LET s == a[k] * d + c IN <<s % 16>> \o MulDigit(a, d, k + 1, s \div 16)
RECURSIVE MulL(_, _)
MulL(a, b) == IF b = <<>> THEN <<0>>
              ELSE AddL(MulDigit(a, b[1], 1, 0), <<0>> \o MulL(a, Tail(b)), 1, 0)
NMulDef(x, y) == Norm(HexOf(MulL(LimbsOf(x), LimbsOf(y))))
NMul(x, y) == NMulDef(x, y)                                            \* (J)

\* long division, one hexadecimal digit of the quotient at a time
RECURSIVE DigitOfQuot(_, _, _)
DigitOfQuot(r, y, d) == IF NLtDef(r, y) THEN [d |-> d, r |-> r] ELSE DigitOfQuot(NSubDef(r, y), y, d + 1)
RECURSIVE DivStep(_, _, _, _)
DivStep(x, y, k, s) ==          \* s = [q, r]; digits 1..k-1 of x are consumed
  IF k > Len(x) THEN s
  ELSE LET t == DigitOfQuot(Norm(s.r \o SubSeq(x, k, k)), y, 0)
       IN DivStep(x, y, k + 1, [q |-> s.q \o DigitOf(t.d), r |-> t.r])
DivMod(x, y) == DivStep(x, y, 1, [q |-> "", r |-> ZeroW])
NDivDef(x, y) == Norm(DivMod(x, y).q)
NDiv(x, y) == NDivDef(x, y)                                            \* (J)
NModDef(x, y) == Norm(DivMod(x, y).r)
NMod(x, y) == NModDef(x, y)                                            \* (J)
NDivCeil(x, y) == IF NMod(x, y) = ZeroW THEN NDiv(x, y) ELSE NAdd(NDiv(x, y), "0000000000000001")

FitsU64(x) == Len(x) = 16
RECURSIVE HexI(_)
HexI(n) == IF n < 16 THEN DigitOf(n) ELSE HexI(n \div 16) \o DigitOf(n % 16)
I2NDef(n) == Norm(HexI(n))
I2N(n) == I2NDef(n)                                                    \* (J)
W(n) == I2N(n)
\* words that can be used as TLA+ integers
IsSmall(w) == SubSeq(w, 1, 9) = "000000000"
RECURSIVE IntOf(_)
IntOf(h) == IF h = "" THEN 0 ELSE 16 * IntOf(SubSeq(h, 1, Len(h) - 1)) + DigitVal(SubSeq(h, Len(h), Len(h)))
N2IDef(h) == IntOf(h)
N2I(h) == N2IDef(h)                                                    \* (J)

(***************************** cryptography (J) *****************************)
\* SHA-256 of a byte string, as 64 digits. (No TLA+ definition: MCPrim checks
\* the override against the published vectors; the specification only uses that
\* it is a function of the bytes.)
Sha256(h) == CHOOSE d \in STRING : TRUE
\* secp256k1 public key (128 digits) recovered from a 64-byte compact signature
\* whose top bit of byte 32 is the recovery id, or "" if there is none
EcRecover(sig, msg) == CHOOSE d \in STRING : TRUE
\* append a line to a file; always TRUE
Emit(file, line) == TRUE

(********************************* helpers **********************************)
Range(s) == { s[k] : k \in DOMAIN s }
RECURSIVE SumTo(_, _)
SumTo(s, n) == IF n = 0 THEN 0 ELSE s[n] + SumTo(s, n - 1)
SumSeqDef(s) == SumTo(s, Len(s))
SumSeq(s) == SumSeqDef(s)                                              \* (J)
Map(f(_), s) == [k \in DOMAIN s |-> f(s[k])]
RECURSIVE FlatSeq(_)
FlatSeq(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o FlatSeq(Tail(ss))
=============================================================================
