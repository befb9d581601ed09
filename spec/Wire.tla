-------------------------------- MODULE Wire --------------------------------
(* The Fuel transaction format: values, their canonical encoding, the sizes  *)
(* and offsets that follow from it, and a decoder.                           *)
(*                                                                           *)
(* Every encoding is defined once, as a sequence of named byte strings       *)
(* (fields); the encoding is their concatenation, the size the sum of their  *)
(* lengths and the offset of a field the length of what precedes it. The     *)
(* decoder is written independently of it and checked against it (MCWire).   *)
(*                                                                           *)
(* Transactions are records, see the projection in harness/src/proj.rs:      *)
(*  script [k,price,limit,maturity,script,data,rroot,inputs,outputs,wits]    *)
(*  create [k,price,limit,maturity,bcl,bwi,salt,slots,inputs,outputs,wits]   *)
(*  mint   [k,ptr,outputs]                                                   *)
EXTENDS Prim

BASE == Zero32                                   \* the base asset
ZeroPtr == [h |-> ZeroW, i |-> ZeroW]
ZeroUtxo == [id |-> Zero32, ix |-> 0]

InputKinds == {"coinSigned", "coinPredicate", "contract", "messageSigned", "messagePredicate"}
CoinKinds == {"coinSigned", "coinPredicate"}
MessageKinds == {"messageSigned", "messagePredicate"}
SignedKinds == {"coinSigned", "messageSigned"}
PredicateKinds == {"coinPredicate", "messagePredicate"}
OutputKinds == {"coin", "contract", "message", "change", "variable", "created"}

InputRepr(i) == CASE i.t \in CoinKinds -> 0 [] i.t = "contract" -> 1 [] i.t \in MessageKinds -> 2
OutputRepr(o) == CASE o.t = "coin" -> 0 [] o.t = "contract" -> 1 [] o.t = "message" -> 2
                   [] o.t = "change" -> 3 [] o.t = "variable" -> 4 [] o.t = "created" -> 5
TxRepr(tx) == CASE tx.k = "script" -> 0 [] tx.k = "create" -> 1 [] tx.k = "mint" -> 2

(******************************** encoding **********************************)
F(name, bytes) == [n |-> name, b |-> bytes]
EncF(fs) == Cat([k \in DOMAIN fs |-> fs[k].b])
\* byte offset of the field called n (-1 if there is none)
RECURSIVE OffFrom(_, _, _, _)
OffFrom(fs, n, k, p) == IF k > Len(fs) THEN -1
                        ELSE IF fs[k].n = n THEN p
                        ELSE OffFrom(fs, n, k + 1, p + ByteLen(fs[k].b))
Off(fs, n) == OffFrom(fs, n, 1, 0)

EncUtxo(u) == u.id \o W(u.ix)
EncPtr(p) == p.h \o p.i
EncSlot(s) == s.k \o s.v
EncWit(w) == W(ByteLen(w)) \o Pad(w)
LenW(h) == W(ByteLen(h))

WixOf(i) == IF i.t \in SignedKinds THEN W(i.wix) ELSE ZeroW
PredOf(i) == IF i.t \in PredicateKinds THEN i.pred ELSE ""
PDataOf(i) == IF i.t \in PredicateKinds THEN i.pdata ELSE ""

InFields(i) ==
  CASE i.t \in CoinKinds ->
       << F("repr", W(0)), F("utxo", EncUtxo(i.utxo)), F("owner", i.owner), F("amount", i.amount),
          F("asset", i.asset), F("ptr", EncPtr(i.ptr)), F("wix", WixOf(i)), F("maturity", i.maturity),
          F("predLen", LenW(PredOf(i))), F("pdataLen", LenW(PDataOf(i))),
          F("pred", Pad(PredOf(i))), F("pdata", Pad(PDataOf(i))) >>
    [] i.t = "contract" ->
       << F("repr", W(1)), F("utxo", EncUtxo(i.utxo)), F("broot", i.broot), F("sroot", i.sroot),
          F("ptr", EncPtr(i.ptr)), F("cid", i.cid) >>
    [] i.t \in MessageKinds ->
       << F("repr", W(2)), F("mid", i.mid), F("sender", i.sender), F("recipient", i.recipient),
          F("amount", i.amount), F("nonce", i.nonce), F("wix", WixOf(i)), F("dataLen", LenW(i.data)),
          F("predLen", LenW(PredOf(i))), F("pdataLen", LenW(PDataOf(i))),
          F("data", Pad(i.data)), F("pred", Pad(PredOf(i))), F("pdata", Pad(PDataOf(i))) >>
EncInput(i) == EncF(InFields(i))

OutFields(o) ==
  CASE o.t \in {"coin", "change", "variable"} ->
       << F("repr", W(OutputRepr(o))), F("to", o.to), F("amount", o.amount), F("asset", o.asset) >>
    [] o.t = "contract" ->
       << F("repr", W(1)), F("inix", W(o.inix)), F("broot", o.broot), F("sroot", o.sroot) >>
    [] o.t = "message" -> << F("repr", W(2)), F("recipient", o.recipient), F("amount", o.amount) >>
    [] o.t = "created" -> << F("repr", W(5)), F("cid", o.cid), F("sroot", o.sroot) >>
EncOutput(o) == EncF(OutFields(o))

HeadFields(tx) ==
  CASE tx.k = "script" ->
       << F("repr", W(0)), F("price", tx.price), F("limit", tx.limit), F("maturity", tx.maturity),
          F("scriptLen", LenW(tx.script)), F("dataLen", LenW(tx.data)), F("nIn", W(Len(tx.inputs))),
          F("nOut", W(Len(tx.outputs))), F("nWit", W(Len(tx.wits))), F("rroot", tx.rroot),
          F("script", Pad(tx.script)), F("data", Pad(tx.data)) >>
    [] tx.k = "create" ->
       << F("repr", W(1)), F("price", tx.price), F("limit", tx.limit), F("maturity", tx.maturity),
          F("bcl", tx.bcl), F("bwi", W(tx.bwi)), F("nSlots", W(Len(tx.slots))), F("nIn", W(Len(tx.inputs))),
          F("nOut", W(Len(tx.outputs))), F("nWit", W(Len(tx.wits))), F("salt", tx.salt) >>
    [] tx.k = "mint" -> << F("repr", W(2)), F("ptr", EncPtr(tx.ptr)), F("nOut", W(Len(tx.outputs))) >>

SlotsOf(tx) == IF tx.k = "create" THEN tx.slots ELSE <<>>
InputsOf(tx) == IF tx.k = "mint" THEN <<>> ELSE tx.inputs
WitsOf(tx) == IF tx.k = "mint" THEN <<>> ELSE tx.wits

EncAll(enc(_), s) == Cat([k \in DOMAIN s |-> enc(s[k])])
EncNoWits(tx) == Cat(<< EncF(HeadFields(tx)), EncAll(EncSlot, SlotsOf(tx)),
                        EncAll(EncInput, InputsOf(tx)), EncAll(EncOutput, tx.outputs) >>)
Enc(tx) == EncNoWits(tx) \o EncAll(EncWit, WitsOf(tx))

(********************************* sizes ************************************)
\* sizes are defined on the content, not by encoding it; MCWire: both agree
InputSize(i) == CASE i.t \in CoinKinds -> 168 + PadLen(ByteLen(PredOf(i))) + PadLen(ByteLen(PDataOf(i)))
                  [] i.t = "contract" -> 160
                  [] i.t \in MessageKinds -> 152 + PadLen(ByteLen(i.data)) + PadLen(ByteLen(PredOf(i))) + PadLen(ByteLen(PDataOf(i)))
OutputSize(o) == CASE o.t \in {"coin", "change", "variable", "contract"} -> 80
                   [] o.t = "message" -> 48 [] o.t = "created" -> 72
WitSize(w) == 8 + PadLen(ByteLen(w))
HeadSize(tx) == CASE tx.k = "script" -> 104 + PadLen(ByteLen(tx.script)) + PadLen(ByteLen(tx.data))
                  [] tx.k = "create" -> 112 [] tx.k = "mint" -> 32
SizesTo(size(_), s, n) == SumSeq([k \in 1..n |-> size(s[k])])
SlotsOff(tx) == HeadSize(tx)
InputsOff(tx) == HeadSize(tx) + 64 * Len(SlotsOf(tx))
OutputsOff(tx) == InputsOff(tx) + SizesTo(InputSize, InputsOf(tx), Len(InputsOf(tx)))
WitsOff(tx) == OutputsOff(tx) + SizesTo(OutputSize, tx.outputs, Len(tx.outputs))
Size(tx) == WitsOff(tx) + SizesTo(WitSize, WitsOf(tx), Len(WitsOf(tx)))
\* bytes that are charged for: everything but the witnesses
Metered(tx) == WitsOff(tx)

\* one list of the transaction is n copies of an item: the same without building the list's encoding item by item
Bulk(tx, list, item, n) == [tx EXCEPT ![list] = [k \in 1..n |-> item]]
EncItem(list, x) == CASE list = "slots" -> EncSlot(x) [] list = "inputs" -> EncInput(x) [] list = "outputs" -> EncOutput(x) [] list = "wits" -> EncWit(x)
BulkEnc(tx, list, item, n) ==
  LET t == Bulk(tx, list, item, n)
      part(l, s) == IF l = list THEN Rep(EncItem(l, item), n) ELSE EncAll(LAMBDA x : EncItem(l, x), s)
  IN Cat(<< EncF(HeadFields(t)), part("slots", SlotsOf(tx)), part("inputs", InputsOf(tx)), part("outputs", tx.outputs), part("wits", WitsOf(tx)) >>)
ItemSize(list, x) == CASE list = "slots" -> 64 [] list = "inputs" -> InputSize(x) [] list = "outputs" -> OutputSize(x) [] list = "wits" -> WitSize(x)
\* where the lists start and end
BulkOff(tx, list, item, n, l) ==
  LET part(m, s) == IF m = list THEN n * ItemSize(m, item) ELSE SumSeq([k \in DOMAIN s |-> ItemSize(m, s[k])])
      a == HeadSize(tx)  b == a + part("slots", SlotsOf(tx))  c == b + part("inputs", InputsOf(tx))  d == c + part("outputs", tx.outputs)
  IN CASE l = "slots" -> a [] l = "inputs" -> b [] l = "outputs" -> c [] l = "wits" -> d [] l = "end" -> d + part("wits", WitsOf(tx))
\* position of item k (from 0), -1 past the end
BulkAt(tx, list, item, n, k) == IF k < n THEN BulkOff(tx, list, item, n, list) + k * ItemSize(list, item) ELSE -1

PredicateOff(i) == CASE i.t = "coinPredicate" -> 168
                     [] i.t = "messagePredicate" -> 152 + PadLen(ByteLen(i.data))
                     [] OTHER -> -1
PDataOff(i) == IF i.t \in PredicateKinds THEN PredicateOff(i) + PadLen(ByteLen(i.pred)) ELSE -1

(******************************** offsets ***********************************)
\* positions of the items of a list: one entry per item and -1 for the next two indexes
ItemOffs(start, size(_), s) == [k \in 1..(Len(s) + 2) |-> IF k <= Len(s) THEN start + SizesTo(size, s, k - 1) ELSE -1]
InputOffs(tx) == ItemOffs(InputsOff(tx), InputSize, InputsOf(tx))
PredOffs(tx) == LET o == InputOffs(tx) IN
  [k \in DOMAIN o |-> IF k <= Len(InputsOf(tx)) /\ InputsOf(tx)[k].t \in PredicateKinds
                      THEN << o[k] + PredicateOff(InputsOf(tx)[k]), PadLen(ByteLen(InputsOf(tx)[k].pred)) >> ELSE <<>>]
SlotSize(s) == 64
Offsets(tx) ==
  CASE tx.k = "script" ->
       [price |-> 8, limit |-> 16, maturity |-> 24, rroot |-> 72, script |-> 104,
        data |-> 104 + PadLen(ByteLen(tx.script)),
        inputs |-> InputsOff(tx), outputs |-> OutputsOff(tx), witnesses |-> WitsOff(tx),
        inputsAt |-> InputOffs(tx), predAt |-> PredOffs(tx),
        outputsAt |-> ItemOffs(OutputsOff(tx), OutputSize, tx.outputs),
        witnessesAt |-> ItemOffs(WitsOff(tx), WitSize, tx.wits)]
    [] tx.k = "create" ->
       [price |-> 8, limit |-> 16, maturity |-> 24, bcl |-> 32, bwi |-> 40, salt |-> 80, slots |-> 112,
        slotsAt |-> ItemOffs(112, SlotSize, tx.slots),
        inputs |-> InputsOff(tx), outputs |-> OutputsOff(tx), witnesses |-> WitsOff(tx),
        inputsAt |-> InputOffs(tx), predAt |-> PredOffs(tx),
        outputsAt |-> ItemOffs(OutputsOff(tx), OutputSize, tx.outputs),
        witnessesAt |-> ItemOffs(WitsOff(tx), WitSize, tx.wits)]
    [] tx.k = "mint" ->
       [ptr |-> 8, outputs |-> 32, outputsAt |-> ItemOffs(32, OutputSize, tx.outputs)]

\* offsets of fields inside inputs and outputs (-1: the kind has no such field)
InputReprOffsets ==
  [coin |-> [utxo |-> 8, owner |-> 48, asset |-> 88, data |-> -1, coinPred |-> 168, broot |-> -1, sroot |-> -1, cid |-> -1,
             mid |-> -1, sender |-> -1, recipient |-> -1, ptr |-> 120],
   contract |-> [utxo |-> 8, owner |-> -1, asset |-> -1, data |-> -1, coinPred |-> -1, broot |-> 48, sroot |-> 80, cid |-> 128,
             mid |-> -1, sender |-> -1, recipient |-> -1, ptr |-> 112],
   message |-> [utxo |-> -1, owner |-> -1, asset |-> -1, data |-> 152, coinPred |-> -1, broot |-> -1, sroot |-> -1, cid |-> -1,
             mid |-> 8, sender |-> 40, recipient |-> 72, ptr |-> -1]]
OutputReprOffsets ==
  LET none == [to |-> -1, asset |-> -1, broot |-> -1, sroot |-> -1, csroot |-> -1, cid |-> -1, recipient |-> -1]
      ccv == [none EXCEPT !.to = 8, !.asset = 48]
  IN [coin |-> ccv, change |-> ccv, variable |-> ccv,
      contract |-> [none EXCEPT !.broot = 16, !.sroot = 48],
      message |-> [none EXCEPT !.recipient = 8],
      created |-> [none EXCEPT !.cid = 8, !.csroot = 40]]

(******************************** decoding **********************************)
(* A parser is a function from (bytes, position) to [r |-> "ok", v, p] with  *)
(* p the position after what was consumed, or [r |-> "err"]. Decoding is     *)
(* canonical: only bytes that some value encodes to are accepted.            *)
DErr == [r |-> "err"]
DOk(v, p) == [r |-> "ok", v |-> v, p |-> p]
Avail(b, p, n) == p + n <= ByteLen(b)
RdB(b, p, n) == IF Avail(b, p, n) THEN DOk(Bytes(b, p, n), p + n) ELSE DErr
RdW(b, p) == RdB(b, p, 8)
\* a length word followed (elsewhere) by that many bytes
RdLen(b, p) == IF ~ Avail(b, p, 8) THEN DErr
               ELSE LET w == Bytes(b, p, 8) IN IF IsSmall(w) THEN DOk(N2I(w), p + 8) ELSE DErr
RdU8(b, p) == LET x == RdLen(b, p) IN IF x.r = "ok" /\ x.v < 256 THEN x ELSE DErr
RdRaw(b, p, n) == IF ~ Avail(b, p, PadLen(n)) THEN DErr
                  ELSE IF Bytes(b, p + n, PadLen(n) - n) # Zeros(PadLen(n) - n) THEN DErr
                  ELSE DOk(Bytes(b, p, n), p + PadLen(n))

DecUtxo(b, p) == LET i == RdB(b, p, 32)  x == RdU8(b, p + 32) IN
                 IF i.r # "ok" \/ x.r # "ok" THEN DErr ELSE DOk([id |-> i.v, ix |-> x.v], p + 40)
DecPtr(b, p) == IF ~ Avail(b, p, 16) THEN DErr
                ELSE LET h == Bytes(b, p, 8)  i == Bytes(b, p + 8, 8) IN
                     IF SubSeq(h, 1, 8) # "00000000" \/ SubSeq(i, 1, 12) # "000000000000" THEN DErr
                     ELSE DOk([h |-> h, i |-> i], p + 16)
DecSlot(b, p) == IF ~ Avail(b, p, 64) THEN DErr ELSE DOk([k |-> Bytes(b, p, 32), v |-> Bytes(b, p + 32, 32)], p + 64)
DecWit(b, p) == LET n == RdLen(b, p) IN IF n.r # "ok" THEN DErr ELSE RdRaw(b, p + 8, n.v)

DecCoin(b, p) ==
  IF ~ Avail(b, p, 168) THEN DErr
  ELSE LET u == DecUtxo(b, p + 8)  t == DecPtr(b, p + 120)  wx == RdU8(b, p + 136)
           pl == RdLen(b, p + 152)  dl == RdLen(b, p + 160) IN
       IF u.r # "ok" \/ t.r # "ok" \/ wx.r # "ok" \/ pl.r # "ok" \/ dl.r # "ok" THEN DErr
       ELSE IF pl.v = 0
       THEN IF dl.v # 0 THEN DErr
            ELSE DOk([t |-> "coinSigned", utxo |-> u.v, owner |-> Bytes(b, p + 48, 32), amount |-> Bytes(b, p + 80, 8),
                      asset |-> Bytes(b, p + 88, 32), ptr |-> t.v, wix |-> wx.v, maturity |-> Bytes(b, p + 144, 8)], p + 168)
       ELSE LET pr == RdRaw(b, p + 168, pl.v)  pd == RdRaw(b, p + 168 + PadLen(pl.v), dl.v) IN
            IF pr.r # "ok" \/ pd.r # "ok" \/ wx.v # 0 THEN DErr
            ELSE DOk([t |-> "coinPredicate", utxo |-> u.v, owner |-> Bytes(b, p + 48, 32), amount |-> Bytes(b, p + 80, 8),
                      asset |-> Bytes(b, p + 88, 32), ptr |-> t.v, maturity |-> Bytes(b, p + 144, 8),
                      pred |-> pr.v, pdata |-> pd.v], pd.p)
DecContractIn(b, p) ==
  IF ~ Avail(b, p, 160) THEN DErr
  ELSE LET u == DecUtxo(b, p + 8)  t == DecPtr(b, p + 112) IN
       IF u.r # "ok" \/ t.r # "ok" THEN DErr
       ELSE DOk([t |-> "contract", utxo |-> u.v, broot |-> Bytes(b, p + 48, 32), sroot |-> Bytes(b, p + 80, 32),
                 ptr |-> t.v, cid |-> Bytes(b, p + 128, 32)], p + 160)
DecMessageIn(b, p) ==
  IF ~ Avail(b, p, 152) THEN DErr
  ELSE LET wx == RdU8(b, p + 120)  ml == RdLen(b, p + 128)  pl == RdLen(b, p + 136)  dl == RdLen(b, p + 144) IN
       IF wx.r # "ok" \/ ml.r # "ok" \/ pl.r # "ok" \/ dl.r # "ok" THEN DErr
       ELSE LET md == RdRaw(b, p + 152, ml.v) IN
            IF md.r # "ok" THEN DErr
            ELSE IF pl.v = 0
            THEN IF dl.v # 0 THEN DErr
                 ELSE DOk([t |-> "messageSigned", mid |-> Bytes(b, p + 8, 32), sender |-> Bytes(b, p + 40, 32),
                           recipient |-> Bytes(b, p + 72, 32), amount |-> Bytes(b, p + 104, 8), nonce |-> Bytes(b, p + 112, 8),
                           wix |-> wx.v, data |-> md.v], md.p)
            ELSE LET pr == RdRaw(b, md.p, pl.v)  pd == RdRaw(b, md.p + PadLen(pl.v), dl.v) IN
                 IF pr.r # "ok" \/ pd.r # "ok" \/ wx.v # 0 THEN DErr
                 ELSE DOk([t |-> "messagePredicate", mid |-> Bytes(b, p + 8, 32), sender |-> Bytes(b, p + 40, 32),
                           recipient |-> Bytes(b, p + 72, 32), amount |-> Bytes(b, p + 104, 8), nonce |-> Bytes(b, p + 112, 8),
                           data |-> md.v, pred |-> pr.v, pdata |-> pd.v], pd.p)
DecInput(b, p) ==
  LET t == RdU8(b, p) IN
  IF t.r # "ok" THEN DErr
  ELSE CASE t.v = 0 -> DecCoin(b, p) [] t.v = 1 -> DecContractIn(b, p) [] t.v = 2 -> DecMessageIn(b, p) [] OTHER -> DErr

DecOutput(b, p) ==
  LET t == RdU8(b, p) IN
  IF t.r # "ok" THEN DErr
  ELSE CASE t.v \in {0, 3, 4} ->
              IF ~ Avail(b, p, 80) THEN DErr
              ELSE DOk([t |-> CASE t.v = 0 -> "coin" [] t.v = 3 -> "change" [] t.v = 4 -> "variable",
                        to |-> Bytes(b, p + 8, 32), amount |-> Bytes(b, p + 40, 8), asset |-> Bytes(b, p + 48, 32)], p + 80)
         [] t.v = 1 ->
              LET i == RdU8(b, p + 8) IN
              IF ~ Avail(b, p, 80) \/ i.r # "ok" THEN DErr
              ELSE DOk([t |-> "contract", inix |-> i.v, broot |-> Bytes(b, p + 16, 32), sroot |-> Bytes(b, p + 48, 32)], p + 80)
         [] t.v = 2 -> IF ~ Avail(b, p, 48) THEN DErr
                       ELSE DOk([t |-> "message", recipient |-> Bytes(b, p + 8, 32), amount |-> Bytes(b, p + 40, 8)], p + 48)
         [] t.v = 5 -> IF ~ Avail(b, p, 72) THEN DErr
                       ELSE DOk([t |-> "created", cid |-> Bytes(b, p + 8, 32), sroot |-> Bytes(b, p + 40, 32)], p + 72)
         [] OTHER -> DErr

\* n items one after the other
RECURSIVE DecListAcc(_, _, _, _, _)
DecListAcc(dec(_, _), b, p, n, acc) ==
  IF n = 0 THEN DOk(acc, p)
  ELSE LET x == dec(b, p) IN IF x.r # "ok" THEN DErr ELSE DecListAcc(dec, b, x.p, n - 1, Append(acc, x.v))
DecList(dec(_, _), b, p, n) == DecListAcc(dec, b, p, n, <<>>)

DecScript(b, p) ==
  IF ~ Avail(b, p, 104) THEN DErr
  ELSE LET sl == RdLen(b, p + 32)  dl == RdLen(b, p + 40)  ni == RdLen(b, p + 48)  no == RdLen(b, p + 56)  nw == RdLen(b, p + 64) IN
       IF sl.r # "ok" \/ dl.r # "ok" \/ ni.r # "ok" \/ no.r # "ok" \/ nw.r # "ok" THEN DErr
       ELSE LET s == RdRaw(b, p + 104, sl.v) IN IF s.r # "ok" THEN DErr
       ELSE LET d == RdRaw(b, s.p, dl.v) IN IF d.r # "ok" THEN DErr
       ELSE LET i == DecList(DecInput, b, d.p, ni.v) IN IF i.r # "ok" THEN DErr
       ELSE LET o == DecList(DecOutput, b, i.p, no.v) IN IF o.r # "ok" THEN DErr
       ELSE LET x == DecList(DecWit, b, o.p, nw.v) IN IF x.r # "ok" THEN DErr
       ELSE DOk([k |-> "script", price |-> Bytes(b, p + 8, 8), limit |-> Bytes(b, p + 16, 8), maturity |-> Bytes(b, p + 24, 8),
                 script |-> s.v, data |-> d.v, rroot |-> Bytes(b, p + 72, 32),
                 inputs |-> i.v, outputs |-> o.v, wits |-> x.v], x.p)
DecCreate(b, p) ==
  IF ~ Avail(b, p, 112) THEN DErr
  ELSE LET bw == RdU8(b, p + 40)  ns == RdLen(b, p + 48)  ni == RdLen(b, p + 56)  no == RdLen(b, p + 64)  nw == RdLen(b, p + 72) IN
       IF bw.r # "ok" \/ ns.r # "ok" \/ ni.r # "ok" \/ no.r # "ok" \/ nw.r # "ok" THEN DErr
       ELSE LET s == DecList(DecSlot, b, p + 112, ns.v) IN IF s.r # "ok" THEN DErr
       ELSE LET i == DecList(DecInput, b, s.p, ni.v) IN IF i.r # "ok" THEN DErr
       ELSE LET o == DecList(DecOutput, b, i.p, no.v) IN IF o.r # "ok" THEN DErr
       ELSE LET x == DecList(DecWit, b, o.p, nw.v) IN IF x.r # "ok" THEN DErr
       ELSE DOk([k |-> "create", price |-> Bytes(b, p + 8, 8), limit |-> Bytes(b, p + 16, 8), maturity |-> Bytes(b, p + 24, 8),
                 bcl |-> Bytes(b, p + 32, 8), bwi |-> bw.v, salt |-> Bytes(b, p + 80, 32), slots |-> s.v,
                 inputs |-> i.v, outputs |-> o.v, wits |-> x.v], x.p)
DecMint(b, p) ==
  LET t == DecPtr(b, p + 8)  no == RdLen(b, p + 24) IN
  IF t.r # "ok" \/ no.r # "ok" THEN DErr
  ELSE LET o == DecList(DecOutput, b, p + 32, no.v) IN IF o.r # "ok" THEN DErr
       ELSE DOk([k |-> "mint", ptr |-> t.v, outputs |-> o.v], o.p)
DecTx(b, p) ==
  LET t == RdU8(b, p) IN
  IF t.r # "ok" THEN DErr
  ELSE CASE t.v = 0 -> DecScript(b, p) [] t.v = 1 -> DecCreate(b, p) [] t.v = 2 -> DecMint(b, p) [] OTHER -> DErr
OnlyKind(d, k) == IF d.r = "ok" /\ d.v.k = k THEN d ELSE DErr

(* By type name, as the harness names them *)
EncOf(ty, v) == CASE ty \in {"tx", "script", "create", "mint"} -> Enc(v)
                  [] ty = "input" -> EncInput(v) [] ty = "output" -> EncOutput(v) [] ty = "witness" -> EncWit(v)
                  [] ty = "slot" -> EncSlot(v) [] ty = "utxo" -> EncUtxo(v) [] ty = "ptr" -> EncPtr(v)
SizeOf(ty, v) == CASE ty \in {"tx", "script", "create", "mint"} -> Size(v)
                  [] ty = "input" -> InputSize(v) [] ty = "output" -> OutputSize(v) [] ty = "witness" -> WitSize(v)
                  [] ty = "slot" -> 64 [] ty = "utxo" -> 40 [] ty = "ptr" -> 16
DecOf(ty, b) == CASE ty = "tx" -> DecTx(b, 0) [] ty = "script" -> OnlyKind(DecTx(b, 0), "script")
                  [] ty = "create" -> OnlyKind(DecTx(b, 0), "create") [] ty = "mint" -> OnlyKind(DecTx(b, 0), "mint")
                  [] ty = "input" -> DecInput(b, 0) [] ty = "output" -> DecOutput(b, 0)
                  [] ty = "witness" -> DecWit(b, 0) [] ty = "slot" -> DecSlot(b, 0)
                  [] ty = "utxo" -> DecUtxo(b, 0) [] ty = "ptr" -> DecPtr(b, 0)

\* an input whose predicate is empty encodes like the signed kind with witness 0, and its
\* predicate data is lost: what the value decodes as
NormInput(i) ==
  CASE i.t = "coinPredicate" /\ i.pred = "" ->
         [t |-> "coinSigned", utxo |-> i.utxo, owner |-> i.owner, amount |-> i.amount, asset |-> i.asset,
          ptr |-> i.ptr, wix |-> 0, maturity |-> i.maturity]
    [] i.t = "messagePredicate" /\ i.pred = "" ->
         [t |-> "messageSigned", mid |-> i.mid, sender |-> i.sender, recipient |-> i.recipient,
          amount |-> i.amount, nonce |-> i.nonce, wix |-> 0, data |-> i.data]
    [] OTHER -> i
NormTx(tx) == IF tx.k = "mint" THEN tx ELSE [tx EXCEPT !.inputs = [k \in DOMAIN tx.inputs |-> NormInput(tx.inputs[k])]]
NormOf(ty, v) == CASE ty \in {"tx", "script", "create", "mint"} -> NormTx(v) [] ty = "input" -> NormInput(v) [] OTHER -> v
=============================================================================
