-------------------------------- MODULE Text --------------------------------
(* Textual forms of UTXO ids and transaction pointers. A text is a sequence  *)
(* of one-character strings (anything that is not printable ASCII, a quote or*)
(* a backslash appears as "?", which is no digit either way).                *)
EXTENDS Wire

Upper == <<"A","B","C","D","E","F">>
IsDigit(c) == \E n \in 1..16 : Digits[n] = c
IsUpper(c) == \E n \in 1..6 : Upper[n] = c
Lower(c) == IF IsUpper(c) THEN Digits[10 + CHOOSE n \in 1..6 : Upper[n] = c] ELSE c
AllHex(cs) == \A k \in DOMAIN cs : IsDigit(cs[k]) \/ IsUpper(cs[k])
Hex(cs) == Cat([k \in DOMAIN cs |-> Lower(cs[k])])
UpperOf(h) == Cat([k \in 1..Len(h) |-> LET c == SubSeq(h, k, k)  n == DigitVal(c) IN IF n >= 10 THEN Upper[n - 9] ELSE c])

RECURSIVE NoPrefix(_)
NoPrefix(cs) == IF Len(cs) >= 2 /\ cs[1] = "0" /\ cs[2] = "x" THEN NoPrefix(SubSeq(cs, 3, Len(cs))) ELSE cs

TErr == [r |-> "err"]
TOk(v) == [r |-> "ok", v |-> v]
Sub(s, a, b) == SubSeq(s, a, b)
\* 64 digits of id and 2 of index; up to two digits stand for an index with the zero id
ParseUtxo(cs) ==
  LET d == NoPrefix(cs) IN
  IF ~ AllHex(d) THEN TErr
  ELSE CASE Len(d) = 0 -> TOk(ZeroUtxo)
         [] Len(d) \in 1..2 -> TOk([id |-> Zero32, ix |-> N2I(Hex(d))])
         [] Len(d) = 66 -> TOk([id |-> Hex(Sub(d, 1, 64)), ix |-> N2I(Hex(Sub(d, 65, 66)))])
         [] OTHER -> TErr
\* 8 digits of height and 4 of index, no prefix
ParsePtr(cs) ==
  IF Len(cs) # 12 \/ ~ AllHex(cs) THEN TErr
  ELSE TOk([h |-> "00000000" \o Hex(Sub(cs, 1, 8)), i |-> "000000000000" \o Hex(Sub(cs, 9, 12))])
UtxoDigits(u) == u.id \o Sub(W(u.ix), 15, 16)
PtrDigits(p) == Sub(p.h, 9, 16) \o Sub(p.i, 13, 16)
CharsOf(s) == [k \in 1..Len(s) |-> Sub(s, k, k)]
=============================================================================
