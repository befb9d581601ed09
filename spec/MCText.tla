-------------------------------- MODULE MCText -------------------------------
(* Bounded model of the textual forms (C21): every short text over a small   *)
(* alphabet, and every text a few edits away from a printed UTXO id or       *)
(* transaction pointer.                                                      *)
EXTENDS Text, Json

CONSTANTS Focus, MaxLen, Edits, CaseFile
VARIABLES txt, left, pc
vars == <<txt, left, pc>>

\* symbols of texts: a character as the specification sees it and its UTF-8 bytes
S(c, h) == [c |-> c, h |-> h]
HexSyms == { S("0", "30"), S("7", "37"), S("9", "39"), S("a", "61"), S("f", "66"), S("A", "41"), S("F", "46") }
OtherSyms == { S("x", "78"), S("X", "58"), S("g", "67"), S("G", "47"), S("+", "2b"), S("-", "2d"), S(" ", "20"), S("_", "5f"), S("/", "2f"), S(":", "3a"), S("@", "40"), S("`", "60"),
               S("?", "00"), S("?", "c3a9"), S("?", "e5ad97"), S("?", "f09f9880"), S("?", "efbc90"), S("?", "d9a3") }
Few == { S("0", "30"), S("f", "66"), S("A", "41"), S("x", "78"), S("+", "2b"), S("?", "c3a9"), S("?", "e5ad97") }
AsciiOf(c) == LET n == CHOOSE n \in 1..22 : <<"0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","A","B","C","D","E","F">>[n] = c
              IN S(c, IF n <= 10 THEN "3" \o DigitOf(n - 1) ELSE IF n <= 16 THEN "6" \o DigitOf(n - 10) ELSE "4" \o DigitOf(n - 16))
Syms(s) == LET cs == CharsOf(s) IN [k \in DOMAIN cs |-> AsciiOf(cs[k])]
Prefix == <<S("0", "30"), S("x", "78")>>
Chars(t) == [k \in DOMAIN t |-> t[k].c]
Utf8(t) == Cat([k \in DOMAIN t |-> t[k].h])
CasesOf(t) == Emit(CaseFile, ToJson([op |-> "text", utf8 |-> Utf8(t)]))

Ids == { Zero32, Rep("ff", 32), "0123456789abcdef" \o Zeros(12) \o "00000000fedcba98" \o "76543210" }
Utxos == { [id |-> d, ix |-> n] : d \in Ids, n \in {0, 1, 160, 255} }
Ptrs == { [h |-> x, i |-> y] : x \in {ZeroW, W(1), "00000000ffffffff", "0000000089abcdef"}, y \in {ZeroW, W(1), W(65535), W(43981)} }
Bases == { Syms(UtxoDigits(u)) : u \in {[id |-> CHOOSE d \in Ids : d # Zero32 /\ d # Rep("ff", 32), ix |-> 160]} }
         \cup { Syms(PtrDigits(p)) : p \in {[h |-> "0000000089abcdef", i |-> W(43981)]} } \cup {<<>>, Syms("5"), Syms("5a")}

Init == CASE Focus = "short" -> txt = <<>> /\ left = 0 /\ pc = "grow"
          [] Focus = "edits" -> txt \in Bases /\ left = Edits /\ pc = "edit"
          [] Focus = "print" -> txt = <<>> /\ left = 0 /\ pc = "print"
Grow == /\ pc = "grow" /\ Len(txt) < MaxLen
        /\ \E s \in Few : txt' = Append(txt, s)
        /\ CasesOf(txt') /\ UNCHANGED <<left, pc>>
Replace(t, k, s) == [t EXCEPT ![k] = s]
Remove(t, k) == SubSeq(t, 1, k - 1) \o SubSeq(t, k + 1, Len(t))
Put(t, k, s) == SubSeq(t, 1, k - 1) \o <<s>> \o SubSeq(t, k, Len(t))
\* places: all in the first edit, the ends and the seams in later ones
Places(t) == IF left = Edits THEN DOMAIN t ELSE DOMAIN t \cap {1, 2, 8, 9, 12, 13, 64, 65, 66, 67}
Edit == /\ pc = "edit" /\ left > 0 /\ left' = left - 1 /\ UNCHANGED pc
        /\ LET syms == IF left = Edits THEN HexSyms \cup OtherSyms ELSE Few IN
           \/ \E k \in Places(txt), s \in syms : txt' = Replace(txt, k, s)
           \/ \E k \in Places(txt) : txt' = Remove(txt, k)
           \/ \E k \in Places(txt) \cup {Len(txt) + 1}, s \in syms : txt' = Put(txt, k, s)
           \/ txt' = Prefix \o txt
           \/ txt' = txt \o txt
        /\ CasesOf(txt')
Show == /\ pc = "print" /\ pc' = "done" /\ UNCHANGED left
         /\ \E u \in Utxos, p \in Ptrs :
              /\ txt' \in {Syms(UtxoDigits(u)), Syms(UpperOf(UtxoDigits(u))), Prefix \o Syms(UtxoDigits(u)), Prefix \o Syms(UpperOf(UtxoDigits(u))),
                           Syms(PtrDigits(p)), Syms(UpperOf(PtrDigits(p)))}
              /\ Emit(CaseFile, ToJson([op |-> "format", utxo |-> u, ptr |-> p])) /\ CasesOf(txt')
Next == Grow \/ Edit \/ Show
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
U == ParseUtxo(Chars(txt))
P == ParsePtr(Chars(txt))
HexChars == { "0","1","2","3","4","5","6","7","8","9","a","b","c","d","e","f","A","B","C","D","E","F" }
\* what is accepted, stated without the parser: zeros in front, prefixes allowed
RECURSIVE Prefixed(_, _)
Prefixed(cs, n) == \* cs is a number of prefixes and then n digits
  IF Len(cs) = n THEN \A k \in DOMAIN cs : cs[k] \in HexChars
  ELSE Len(cs) > n /\ Len(cs) >= 2 /\ cs[1] = "0" /\ cs[2] = "x" /\ Prefixed(SubSeq(cs, 3, Len(cs)), n)
UtxoShapes == U.r = "ok" <=> \E n \in {0, 1, 2, 66} : Prefixed(Chars(txt), n)
PtrShapes == P.r = "ok" <=> Len(txt) = 12 /\ \A k \in DOMAIN txt : txt[k].c \in HexChars
\* the digits of the value are those of the text, with zeros in front
LowOf(cs) == Cat([k \in DOMAIN cs |-> Lower(cs[k])])
EndsIn(s, e) == Len(s) >= Len(e) /\ SubSeq(s, Len(s) - Len(e) + 1, Len(s)) = e /\ SubSeq(s, 1, Len(s) - Len(e)) = Rep("0", Len(s) - Len(e))
Exact == /\ U.r = "ok" => EndsIn(UtxoDigits(U.v), LowOf(NoPrefix(Chars(txt))))
         /\ P.r = "ok" => PtrDigits(P.v) = LowOf(Chars(txt))
\* printing and parsing again is the identity
Stable == /\ U.r = "ok" => \A s \in {UtxoDigits(U.v), UpperOf(UtxoDigits(U.v))} : ParseUtxo(CharsOf(s)) = U /\ ParseUtxo(CharsOf("0x" \o s)) = U
          /\ P.r = "ok" => ParsePtr(CharsOf(PtrDigits(P.v))) = P /\ ParsePtr(CharsOf(UpperOf(PtrDigits(P.v)))) = P
\* the same value in all its printed forms, different values in different ones
PrintsParse == pc = "print" => /\ \A u \in Utxos : ParseUtxo(CharsOf(UtxoDigits(u))) = TOk(u)
                               /\ \A p \in Ptrs : ParsePtr(CharsOf(PtrDigits(p))) = TOk(p)
\* no text means both
OneMeaning == ~ (U.r = "ok" /\ P.r = "ok")
=============================================================================
