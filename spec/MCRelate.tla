------------------------------- MODULE MCRelate ------------------------------
(* Bounded model of equality, order and serialized forms (C29, C21): for     *)
(* each type of value a small universe (a value, all its one-field variants, *)
(* and values of the other kinds), and all pairs from it.                    *)
EXTENDS Relate, Params, Json

CONSTANTS Focus, Types, Deep, CaseFile
VARIABLES ty, a, b, pc
vars == <<ty, a, b, pc>>

X(d) == Rep(d \o "1", 32)
Flip(v, n) == SubSeq(v, 1, n - 1) \o (IF SubSeq(v, n, n) = "0" THEN "1" ELSE "0") \o SubSeq(v, n + 1, Len(v))
Blobs == {"script", "data", "pred", "pdata"}
RECURSIVE Vars(_, _)
Vars(f, v) ==
  CASE f = "ix" \/ f = "wix" \/ f = "inix" -> {255 - v, v + 1}
    [] f = "utxo" -> { [v EXCEPT !.id = x] : x \in Vars("id", v.id) } \cup { [v EXCEPT !.ix = x] : x \in Vars("ix", v.ix) }
    [] f = "ptr" /\ Has(v, "h") -> { [v EXCEPT !.h = x] : x \in Vars("h", v.h) } \cup { [v EXCEPT !.i = x] : x \in Vars("i", v.i) }
    [] f = "h" -> {Flip(v, 9), Flip(v, 16)} [] f = "i" -> {Flip(v, 13), Flip(v, 16)}
    [] f = "result" -> { [t |-> "success"], [t |-> "revert"], [t |-> "panic"], [t |-> "generic", c |-> W(9)], [t |-> "generic", c |-> W(1)], [t |-> "generic", c |-> W(0)] } \ {v}
    [] f = "pcid" -> {"none", Zero32, X("f")} \ {v}
    [] f = "reason" -> {Flip(v, 2)}
    [] f \in Blobs -> {v \o "00", ""} \cup (IF Len(v) > 2 THEN {SubSeq(v, 1, Len(v) - 2), Flip(v, Len(v))} ELSE {})
    [] OTHER -> {Flip(v, 1), Flip(v, Len(v))}
Around(v) == {v} \cup UNION { { [v EXCEPT ![f] = x] : x \in Vars(f, v[f]) } : f \in DOMAIN v \ {"t"} }
Twice(v) == UNION { Around(u) : u \in Around(v) }

U0 == [id |-> X("a"), ix |-> 7]
P0 == [h |-> "0000000001020304", i |-> "0000000000000506"]
Ins == { [t |-> "coinSigned", utxo |-> U0, owner |-> X("b"), amount |-> W(5), asset |-> X("c"), ptr |-> P0, wix |-> 3, maturity |-> W(9)],
         [t |-> "coinPredicate", utxo |-> U0, owner |-> X("b"), amount |-> W(5), asset |-> X("c"), ptr |-> P0, maturity |-> W(9), pred |-> "2401", pdata |-> "02"],
         [t |-> "contract", utxo |-> U0, broot |-> X("d"), sroot |-> X("e"), ptr |-> P0, cid |-> X("f")],
         [t |-> "messageSigned", mid |-> X("7"), sender |-> X("8"), recipient |-> X("9"), amount |-> W(5), nonce |-> W(3), wix |-> 3, data |-> "0102"],
         [t |-> "messagePredicate", mid |-> X("7"), sender |-> X("8"), recipient |-> X("9"), amount |-> W(5), nonce |-> W(3), data |-> "01", pred |-> "24", pdata |-> "05"] }
Outs == { [t |-> "coin", to |-> X("1"), amount |-> W(5), asset |-> X("2")], [t |-> "change", to |-> X("1"), amount |-> W(5), asset |-> X("2")],
          [t |-> "variable", to |-> X("1"), amount |-> W(5), asset |-> X("2")], [t |-> "contract", inix |-> 3, broot |-> X("3"), sroot |-> X("4")],
          [t |-> "message", recipient |-> X("5"), amount |-> W(5)], [t |-> "created", cid |-> X("6"), sroot |-> X("4")] }
Recs == { [t |-> "call", id |-> X("1"), to |-> X("2"), amount |-> W(3), asset |-> X("4"), gas |-> W(5), param1 |-> W(6), param2 |-> W(7), pc |-> W(8), is |-> W(9)],
          [t |-> "return", id |-> X("1"), val |-> W(2), pc |-> W(8), is |-> W(9)],
          [t |-> "returnData", id |-> X("1"), ptr |-> W(2), len |-> W(8), digest |-> X("3"), data |-> "0a0b", pc |-> W(8), is |-> W(9)],
          [t |-> "panic", id |-> X("1"), reason |-> "0b00000000000000", pc |-> W(8), is |-> W(9), pcid |-> X("2")],
          [t |-> "revert", id |-> X("1"), ra |-> W(2), pc |-> W(8), is |-> W(9)],
          [t |-> "log", id |-> X("1"), ra |-> W(2), rb |-> W(3), rc |-> W(4), rd |-> W(5), pc |-> W(8), is |-> W(9)],
          [t |-> "logData", id |-> X("1"), ra |-> W(2), rb |-> W(3), ptr |-> W(4), len |-> W(8), digest |-> X("3"), data |-> "0a0b", pc |-> W(8), is |-> W(9)],
          [t |-> "transfer", id |-> X("1"), to |-> X("2"), amount |-> W(3), asset |-> X("4"), pc |-> W(8), is |-> W(9)],
          [t |-> "transferOut", id |-> X("1"), to |-> X("2"), amount |-> W(3), asset |-> X("4"), pc |-> W(8), is |-> W(9)],
          [t |-> "scriptResult", result |-> [t |-> "generic", c |-> W(9)], gasUsed |-> W(5)],
          [t |-> "messageOut", mid |-> X("1"), sender |-> X("2"), recipient |-> X("3"), amount |-> W(4), nonce |-> X("5"), len |-> W(8), digest |-> X("6"), data |-> "0a0b"] }
Bytestrings == {"", "00", "0000", "01", "0100", "0001", "0102030405060708", "010203040506070800"}
Odd == [f \in ParamNames |-> W(77)]
Base(t) == CASE t = "input" -> Ins [] t = "output" -> Outs [] t = "receipt" -> Recs [] t = "utxo" -> {U0} [] t = "ptr" -> {P0}
             [] t = "slot" -> {[k |-> X("1"), v |-> X("2")]} [] t = "fee" -> {[min |-> W(5), total |-> W(6), minGas |-> W(7), maxGas |-> W(8)]}
             [] t = "params" -> {DefaultParams, Odd}
\* (for pairs, the second value is near the first or of another kind)
Near(t, v) == IF t \in {"witness", "contract"} THEN Bytestrings ELSE IF t \in Ordered \/ Deep THEN Twice(v) ELSE Around(v)
Firsts(t) == IF t \in {"witness", "contract"} THEN Bytestrings ELSE Base(t)
Seconds(t, v) == Near(t, v) \cup Firsts(t)

Init == /\ ty \in Types /\ a \in Firsts(ty) /\ b = a /\ pc = "start"
Pair == /\ pc = "start" /\ Focus = "relate" /\ pc' = "done" /\ b' \in Seconds(ty, a) /\ UNCHANGED <<ty, a>>
        /\ Emit(CaseFile, ToJson([op |-> "relate", ty |-> ty, a |-> a, b |-> b']))
Form == /\ pc = "start" /\ Focus = "serde" /\ pc' = "done" /\ b' \in Seconds(ty, a) /\ UNCHANGED <<ty, a>>
        /\ Emit(CaseFile, ToJson([op |-> "serde", ty |-> ty, v |-> b']))
Next == Pair \/ Form
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
\* what is the same is exactly what is given by the same content
Equivalence == pc = "done" => /\ Same(ty, a, a) /\ Same(ty, b, b) /\ (Same(ty, a, b) <=> Same(ty, b, a))
                              /\ (Same(ty, a, b) => (ty = "receipt" \/ a = b))
\* receipts differ in more than the panicking contract, or are the same
Receipted == (pc = "done" /\ ty = "receipt") =>
  (Same(ty, a, b) <=> (a = b \/ (a.t = "panic" /\ b.t = "panic" /\ \A f \in DOMAIN a \ {"pcid"} : a[f] = b[f])))
\* the encoding tells apart what is not the same (up to what encoding keeps)
EncodingTells == (pc = "done" /\ ty \in {"input", "output", "slot", "utxo", "ptr"}) =>
  ((EncOf(ty, a) = EncOf(ty, b)) <=> Same(ty, NormOf(ty, a), NormOf(ty, b)))
ReceiptsTell == (pc = "done" /\ ty = "receipt") => (Same(ty, RNorm(a), RNorm(b)) <=> REnc(a) = REnc(b))
\* the order is total, and that of the encodings
TotalOrder == (pc = "done" /\ ty \in Ordered) =>
  LET d == Compare(ty, a, b) IN
  /\ d = - Compare(ty, b, a) /\ ((d = 0) <=> a = b)
  /\ \A c \in Around(a) \cup Around(b) : (d <= 0 /\ Compare(ty, b, c) <= 0) => Compare(ty, a, c) <= 0
  /\ (ty \in {"utxo", "ptr"} /\ d # 0) => (d < 0 <=> HexLt(EncOf(ty, a), EncOf(ty, b)))
=============================================================================
