-------------------------------- MODULE MCWire -------------------------------
(* Bounded model of the wire format (C15, C16, C17, C28).                    *)
(*                                                                           *)
(* A value is put together (a transaction item by item, or a single item);   *)
(* in focus "decode" its encoding is then damaged: cut, extended, or one     *)
(* byte (pair of length words) replaced. The decoder of Wire, written        *)
(* independently of the encoder, must invert it, refuse every strict prefix, *)
(* and accept damaged bytes only if they are the encoding of what it returns.*)
EXTENDS Ident, Json

CONSTANTS Focus,        \* "codec", "offsets", "access" or "decode"
          MaxIn, MaxOut, MaxWit,
          Rich,         \* large alphabets
          Wide,         \* instead: one long byte string or one long list per value
          CaseFile
VARIABLES v, ty, b, full, pc
vars == <<v, ty, b, full, pc>>

Seg(n) == SubSeq("a1b2c3d4e5f60718293a4b5c6d7e8f90aabbccddeeff00112233445566778899", 1, 2 * n)
X(d) == "f" \o d \o Rep("0" \o d, 30) \o d \o "1"
U(x) == [id |-> X("1"), ix |-> x]
P(x) == [h |-> W(x), i |-> W(65535 - x)]
Wx == {0, 255}
Lens(some, all) == IF Rich THEN all ELSE some
Ins ==
  { [t |-> "coinSigned", utxo |-> U(255), owner |-> X("2"), amount |-> MaxW, asset |-> X("3"), ptr |-> P(7), wix |-> w, maturity |-> W(9)] : w \in Wx }
  \cup { [t |-> "coinPredicate", utxo |-> U(1), owner |-> X("2"), amount |-> W(5), asset |-> X("3"), ptr |-> P(8), maturity |-> W(9), pred |-> Seg(n), pdata |-> Seg(m)]
         : n \in Lens({0, 9}, {0, 1, 8, 9}), m \in Lens({0, 7}, {0, 7, 8}) }
  \cup { [t |-> "contract", utxo |-> U(2), broot |-> X("4"), sroot |-> X("5"), ptr |-> P(9), cid |-> X("6")] }
  \cup { [t |-> "messageSigned", mid |-> X("7"), sender |-> X("8"), recipient |-> X("9"), amount |-> W(6), nonce |-> W(10), wix |-> w, data |-> Seg(n)]
         : n \in Lens({1}, {0, 1, 8}), w \in Wx }
  \cup { [t |-> "messagePredicate", mid |-> X("7"), sender |-> X("8"), recipient |-> X("9"), amount |-> W(6), nonce |-> W(10), data |-> Seg(n), pred |-> Seg(m), pdata |-> Seg(q)]
         : n \in {0, 9}, m \in Lens({3}, {0, 3, 8}), q \in Lens({8}, {0, 5}) }
Outs == { [t |-> "coin", to |-> X("1"), amount |-> W(1), asset |-> X("2")], [t |-> "change", to |-> X("1"), amount |-> MaxW, asset |-> X("2")],
          [t |-> "variable", to |-> X("1"), amount |-> W(3), asset |-> X("2")], [t |-> "contract", inix |-> 255, broot |-> X("3"), sroot |-> X("4")],
          [t |-> "message", recipient |-> X("5"), amount |-> W(4)], [t |-> "created", cid |-> X("6"), sroot |-> X("4")] }
Wits == { Seg(n) : n \in {0, 1, 8, 9} }
Slots(n) == [k \in 1..n |-> [k |-> X(DigitOf(k)), v |-> X(DigitOf(k + 4))]]
Scripts == { [k |-> "script", price |-> W(1), limit |-> MaxW, maturity |-> W(3), script |-> Seg(n), data |-> Seg(m), rroot |-> X("7"),
              inputs |-> <<>>, outputs |-> <<>>, wits |-> <<>>] : n \in Lens({0, 1}, {0, 1, 8}), m \in Lens({0, 7}, {0, 7, 16}) }
Creates == { [k |-> "create", price |-> W(1), limit |-> W(2), maturity |-> MaxW, bcl |-> W(4), bwi |-> x, salt |-> X("8"),
              slots |-> Slots(n), inputs |-> <<>>, outputs |-> <<>>, wits |-> <<>>] : x \in Lens({255}, {0, 255}), n \in Lens({0, 2}, 0..2) }
Mints == { [k |-> "mint", ptr |-> P(x), outputs |-> <<>>] : x \in {0, 65535} }

Items == { <<"input", i>> : i \in Ins } \cup { <<"output", o>> : o \in Outs } \cup { <<"witness", w>> : w \in Wits }
         \cup { <<"slot", Slots(1)[1]>>, <<"utxo", U(255)>>, <<"ptr", P(65535)>> }
(* lengths and counts around one and two bytes *)
Lengths == IF Focus = "decode" THEN {65537} ELSE {255, 256, 257, 65535, 65536, 65537}
Counts == IF Focus = "decode" THEN {256} ELSE {255, 256, 257}
Long(n) == SubSeq(Rep(Seg(31), (n \div 31) + 1), 1, 2 * n)
One(t) == CHOOSE i \in Ins : i.t = t
LongIns(n) == LET p == [One("coinPredicate") EXCEPT !.pred = Seg(9), !.pdata = Seg(7)]
                  m == [One("messagePredicate") EXCEPT !.pred = Seg(3), !.pdata = Seg(8), !.data = Seg(9)] IN
              { [p EXCEPT !.pred = Long(n)], [p EXCEPT !.pdata = Long(n)], [One("messageSigned") EXCEPT !.data = Long(n)],
                [m EXCEPT !.pred = Long(n)], [m EXCEPT !.pdata = Long(n)], [m EXCEPT !.data = Long(n)] }
AnyScript == CHOOSE t \in Scripts : t.script = Seg(0) /\ t.data = Seg(7)
AnyCreate == CHOOSE t \in Creates : t.slots = <<>>
LongTxs(n) == { [AnyScript EXCEPT !.script = Long(n)], [AnyScript EXCEPT !.data = Long(n)] }
              \cup { [t EXCEPT !.inputs = <<i, One("coinSigned")>>, !.wits = <<Seg(1)>>] : i \in LongIns(n), t \in {AnyScript} }
              \cup { [t EXCEPT !.wits = <<Long(n), Seg(1)>>] : t \in {AnyScript, AnyCreate} }
Many(n, item(_)) == [k \in 1..n |-> item(k)]
ManyIn(k) == [One("coinSigned") EXCEPT !.amount = W(k), !.wix = k % 256]
ManyOut(k) == [t |-> "coin", to |-> X("1"), amount |-> W(k), asset |-> X("2")]
ManyWit(k) == W(k)
ManySlot(k) == [k |-> Zeros(24) \o W(k), v |-> W(k) \o Zeros(24)]
WideTxs(n) == UNION { { [t EXCEPT !.inputs = Many(n, ManyIn)], [t EXCEPT !.outputs = Many(n, ManyOut)], [t EXCEPT !.wits = Many(n, ManyWit)] } : t \in {AnyScript, AnyCreate} }
              \cup { [AnyCreate EXCEPT !.slots = Many(n, ManySlot)], [k |-> "mint", ptr |-> P(7), outputs |-> Many(n, ManyOut)] }
WideInit == \/ Focus # "access" /\ ty = "tx" /\ v \in UNION { LongTxs(n) : n \in Lengths } \cup UNION { WideTxs(n) : n \in Counts }
            \/ ty = "input" /\ v \in UNION { LongIns(n) : n \in Lengths }
            \/ ty = "witness" /\ v \in { Long(n) : n \in Lengths }

Init == /\ b = "" /\ full = "" /\ pc = "head"
        /\ IF Wide THEN WideInit
           ELSE \/ ty = "tx" /\ v \in Scripts \cup Creates \cup Mints
                \/ \E x \in Items : ty = x[1] /\ v = x[2]
IsTx == ty = "tx"
AddIn == /\ pc \in {"head", "in"} /\ IsTx /\ v.k # "mint" /\ Len(v.inputs) < MaxIn
         /\ \E i \in Ins : v' = [v EXCEPT !.inputs = Append(@, i)]
         /\ pc' = "in" /\ UNCHANGED <<ty, b, full>>
AddOut == /\ pc \in {"head", "in", "out"} /\ IsTx /\ Len(v.outputs) < MaxOut
          /\ \E o \in Outs : v' = [v EXCEPT !.outputs = Append(@, o)]
          /\ pc' = "out" /\ UNCHANGED <<ty, b, full>>
AddWit == /\ pc # "done" /\ pc # "bytes" /\ IsTx /\ v.k # "mint" /\ Len(v.wits) < MaxWit
          /\ \E w \in Wits : v' = [v EXCEPT !.wits = Append(@, w)]
          /\ pc' = "wit" /\ UNCHANGED <<ty, b, full>>
Building == pc \notin {"done", "bytes"}
\* types a transaction can also be decoded as
Names == IF IsTx THEN {"tx", v.k} ELSE {ty}
Finish == /\ Building /\ Focus # "decode" /\ pc' = "done" /\ b' = EncOf(ty, v) /\ UNCHANGED <<v, ty, full>>
          /\ CASE Focus = "codec" -> Emit(CaseFile, ToJson([op |-> "codec", ty |-> ty, v |-> v]))
               [] Focus = "offsets" -> IsTx => Emit(CaseFile, ToJson([op |-> "offsets", tx |-> v]))
               [] Focus = "access" -> ty \in {"tx", "input", "output", "witness", "slot"} => Emit(CaseFile, ToJson([op |-> "access", ty |-> ty, v |-> v]))

(********************************* damage ***********************************)
Damaged(x) == /\ pc' = "bytes" /\ b' = x /\ full' = EncOf(ty, v) /\ UNCHANGED <<v, ty>>
              /\ \A n \in (IF Rich \/ Wide THEN {ty} ELSE Names) : Emit(CaseFile, ToJson([op |-> "decode", ty |-> n, bytes |-> x, full |-> EncOf(ty, v)]))
E0 == EncOf(ty, v)
\* (positions around field boundaries and near both ends)
Cuts == LET n == ByteLen(E0) IN IF Wide THEN {40, n \div 2, n - 8, n - 1} ELSE { k \in 0..(n - 1) : k % 8 \in {0, 1, 7} }
Cut == Building /\ Focus = "decode" /\ \E k \in Cuts : Damaged(Bytes(E0, 0, k))
Extend == Building /\ Focus = "decode" /\ \E x \in (IF Wide THEN {"", "00"} ELSE {"", "00", Rep("00", 8), Rep("ff", 64)}) : Damaged(E0 \o x)
Put1(k, x) == Bytes(E0, 0, k) \o x \o From(E0, k + ByteLen(x))
\* bytes in the interesting places of a word: first, last but one, last
Byte == Building /\ Focus = "decode"
        /\ \E k \in (IF Wide THEN {ByteLen(E0) - 1} ELSE { j \in 0..(ByteLen(E0) - 1) : j % 8 \in {0, 6, 7} }) : \E x \in (IF Wide THEN {"00", "01"} ELSE {"00", "01", "02", "06", "ff"}) :
             Bytes(E0, k, 1) # x /\ Damaged(Put1(k, x))
Word == Building /\ Focus = "decode"
        /\ \E k \in (IF Wide THEN {} ELSE { 8 * j : j \in 0..(ByteLen(E0) \div 8 - 1) }) : \E x \in {MaxW, "7fffffffffffffff", "00000000ffffffff", "fffffffffffffff8", "0000000100000000"} :
             Damaged(Put1(k, x))
Next == AddIn \/ AddOut \/ AddWit \/ Finish \/ Cut \/ Extend \/ Byte \/ Word
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
Done == pc = "done"
E == b      \* (the encoding of v, see Finish)
\* C15: the decoder inverts the encoder, whatever follows. (The one exception: predicate data next
\* to an empty predicate is not part of any canonical encoding.)
Odd(i) == i.t \in PredicateKinds /\ i.pred = "" /\ i.pdata # ""
Proper == IF IsTx THEN \A k \in DOMAIN InputsOf(v) : ~ Odd(v.inputs[k]) ELSE ty = "input" => ~ Odd(v)
OddRefused == (Done /\ ~ Proper) => DecOf(ty, E).r = "err"
RoundTrip == (Done /\ Proper) => LET d == DOk(NormOf(ty, v), ByteLen(E)) IN DecOf(ty, E) = d /\ DecOf(ty, E \o "ff") = d /\ DecOf(ty, E \o Zeros(9)) = d
Sizes == Done => ByteLen(E) = SizeOf(ty, v) /\ (SizeOf(ty, v) % 8 = 0)
             /\ (IsTx => Metered(v) = ByteLen(EncNoWits(v)) /\ Metered(v) = Size(v) - SumSeq([k \in DOMAIN WitsOf(v) |-> WitSize(WitsOf(v)[k])]))
\* normal values are those that survive, and normalizing loses nothing that is encoded
Normal == Done => NormOf(ty, NormOf(ty, v)) = NormOf(ty, v) /\ (SizeOf(ty, NormOf(ty, v)) <= SizeOf(ty, v))

\* C17: what is at each offset is the encoding of that field
At(p, x) == Avail(E, p, ByteLen(x)) /\ Bytes(E, p, ByteLen(x)) = x
ListAt(offs, enc(_), s) == Len(offs) = Len(s) + 2 /\ offs[Len(s) + 1] = -1 /\ offs[Len(s) + 2] = -1 /\ \A k \in DOMAIN s : At(offs[k], enc(s[k]))
FieldsAt(o) == /\ \A f \in DOMAIN o \cap {"price", "limit", "maturity", "bcl", "rroot", "salt"} : At(o[f], v[f])
               /\ "bwi" \in DOMAIN o => At(o.bwi, W(v.bwi))
               /\ "ptr" \in DOMAIN o => At(o.ptr, EncPtr(v.ptr))
               /\ \A f \in DOMAIN o \cap {"script", "data"} : At(o[f], Pad(v[f]))
OffsetsPoint == (Done /\ IsTx) =>
  LET o == Offsets(v) IN
  /\ FieldsAt(o)
  /\ v.k = "create" => ListAt(o.slotsAt, EncSlot, v.slots) /\ At(o.slots, EncAll(EncSlot, v.slots))
  /\ v.k # "mint" => /\ ListAt(o.inputsAt, EncInput, v.inputs) /\ ListAt(o.witnessesAt, EncWit, v.wits)
                     /\ At(o.inputs, EncAll(EncInput, v.inputs)) /\ At(o.witnesses, EncAll(EncWit, v.wits)) /\ At(o.witnesses, From(E, o.witnesses))
                     /\ \A k \in DOMAIN v.inputs : IF v.inputs[k].t \in PredicateKinds
                                                   THEN At(o.predAt[k][1], Pad(v.inputs[k].pred)) /\ o.predAt[k][2] = PadLen(ByteLen(v.inputs[k].pred))
                                                   ELSE o.predAt[k] = <<>>
  /\ ListAt(o.outputsAt, EncOutput, v.outputs) /\ At(o.outputs, EncAll(EncOutput, v.outputs))
KindOfInput(i) == CASE i.t \in CoinKinds -> "coin" [] i.t \in MessageKinds -> "message" [] OTHER -> "contract"
InsideItems == Done =>
  /\ ty = "input" => LET o == InputReprOffsets[KindOfInput(v)] IN
       /\ \A f \in {"owner", "asset", "broot", "sroot", "cid", "mid", "sender", "recipient"} : f \in DOMAIN v => At(o[f], v[f])
       /\ "utxo" \in DOMAIN v => At(o.utxo, EncUtxo(v.utxo))
       /\ "ptr" \in DOMAIN v => At(o.ptr, EncPtr(v.ptr))
       /\ "data" \in DOMAIN v => At(o.data, Pad(v.data))
       /\ v.t \in PredicateKinds => At(PredicateOff(v), Pad(v.pred)) /\ At(PDataOff(v), Pad(v.pdata)) /\ PDataOff(v) + PadLen(ByteLen(v.pdata)) = ByteLen(E)
       /\ v.t = "coinPredicate" => PredicateOff(v) = o.coinPred
  /\ ty = "output" => LET o == OutputReprOffsets[v.t] IN
       \A f \in {"to", "asset", "broot", "cid", "recipient"} : f \in DOMAIN v => At(o[f], v[f])

\* the shorter way of encoding lists of equal items
Lists == IF v.k = "mint" THEN {"outputs"} ELSE IF v.k = "script" THEN {"inputs", "outputs", "wits"} ELSE {"slots", "inputs", "outputs", "wits"}
Copies == (Done /\ IsTx) => \A l \in { m \in Lists : v[m] # <<>> }, n \in {1, 3} :
  LET x == v[l][1]  t == Bulk(v, l, x, n)  o == Offsets(t)
      at == CASE l = "slots" -> o.slotsAt [] l = "inputs" -> o.inputsAt [] l = "outputs" -> o.outputsAt [] l = "wits" -> o.witnessesAt IN
  /\ BulkEnc(v, l, x, n) = Enc(t) /\ BulkOff(v, l, x, n, "end") = Size(t) /\ BulkOff(v, l, x, n, "wits") = WitsOff(t)
  /\ BulkOff(v, l, x, n, "inputs") = InputsOff(t) /\ BulkOff(v, l, x, n, "outputs") = OutputsOff(t)
  /\ \A k \in 0..(n + 1) : BulkAt(v, l, x, n, k) = at[k + 1]

\* C16: bytes are accepted only as the encoding of what they decode to
Canonical == pc = "bytes" => LET d == DecOf(ty, b) IN
  d.r = "ok" => /\ d.p <= ByteLen(b)
                \* (indexes are one byte in a word of eight, everything else is exact)
                /\ LET e == EncOf(ty, d.v) IN e = Bytes(b, 0, d.p) /\ NormOf(ty, d.v) = d.v /\ DecOf(ty, e) = d
PrefixesRefused == (pc = "bytes" /\ ByteLen(b) < ByteLen(full)) => DecOf(ty, b).r = "err"
ExtensionsHarmless == (Proper /\ pc = "bytes" /\ StartsWith(b, full)) => DecOf(ty, b) = DecOf(ty, full) /\ DecOf(ty, b).r = "ok"
=============================================================================
