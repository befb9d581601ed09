-------------------------------- MODULE MCIdent ------------------------------
(* Bounded model of identity (C09, C10) and of preparation (C20): a small    *)
(* transaction a, and b which differs from it at one place (or in the order, *)
(* number or kind of its items). The id must tell them apart exactly if the  *)
(* place is not one of those that are filled in later.                       *)
EXTENDS Ident, Json

CONSTANTS Focus, MaxIn, MaxOut, CaseFile
VARIABLES a, b, site, pc
vars == <<a, b, site, pc>>

X(d) == Rep(d \o "1", 32)
Ptr(n) == [h |-> W(16 + n), i |-> W(32 + n)]
Ins(n) == { [t |-> "coinSigned", utxo |-> [id |-> X("a"), ix |-> n], owner |-> X("b"), amount |-> W(n), asset |-> X("c"), ptr |-> Ptr(n), wix |-> n, maturity |-> W(9)],
            [t |-> "coinPredicate", utxo |-> [id |-> X("a"), ix |-> n], owner |-> X("b"), amount |-> W(n), asset |-> X("c"), ptr |-> Ptr(n), maturity |-> W(9),
             pred |-> "2401", pdata |-> "02"],
            [t |-> "contract", utxo |-> [id |-> X("a"), ix |-> n], broot |-> X("d"), sroot |-> X("e"), ptr |-> Ptr(n), cid |-> X("f")],
            [t |-> "messageSigned", mid |-> X("7"), sender |-> X("8"), recipient |-> X("9"), amount |-> W(n), nonce |-> W(3), wix |-> n, data |-> "0102"],
            [t |-> "messagePredicate", mid |-> X("7"), sender |-> X("8"), recipient |-> X("9"), amount |-> W(n), nonce |-> W(3), data |-> "01", pred |-> "24", pdata |-> ""] }
Outs(n) == { [t |-> "coin", to |-> X("1"), amount |-> W(n), asset |-> X("2")], [t |-> "change", to |-> X("1"), amount |-> W(n), asset |-> X("2")],
             [t |-> "variable", to |-> X("1"), amount |-> W(n), asset |-> X("2")], [t |-> "contract", inix |-> n, broot |-> X("3"), sroot |-> X("4")],
             [t |-> "message", recipient |-> X("5"), amount |-> W(n)], [t |-> "created", cid |-> X("6"), sroot |-> X("4")] }
Script0 == [k |-> "script", price |-> W(1), limit |-> W(2), maturity |-> W(3), script |-> "2402", data |-> "07", rroot |-> X("7"),
            inputs |-> <<>>, outputs |-> <<>>, wits |-> <<"01">>]
Create0 == [k |-> "create", price |-> W(1), limit |-> W(2), maturity |-> W(3), bcl |-> W(4), bwi |-> 0, salt |-> X("8"),
            slots |-> <<[k |-> X("1"), v |-> X("2")], [k |-> X("3"), v |-> X("4")]>>, inputs |-> <<>>, outputs |-> <<>>, wits |-> <<"01020304", "">>]
Mint0 == [k |-> "mint", ptr |-> [h |-> W(7), i |-> W(8)], outputs |-> <<>>]

(********************************* changes **********************************)
Flip(v, n) == SubSeq(v, 1, n - 1) \o (IF SubSeq(v, n, n) = "0" THEN "1" ELSE "0") \o SubSeq(v, n + 1, Len(v))
Fixed(v) == {Flip(v, 1), Flip(v, Len(v))}
Blob(v) == {v \o "00", "ff"} \cup (IF Len(v) > 2 THEN {SubSeq(v, 1, Len(v) - 2)} ELSE {})
Small(v) == {v + 1, 255 - v} \ {v}
PtrAlts(v) == { [v EXCEPT !.h = x] : x \in {Flip(v.h, 9), Flip(v.h, 16)} } \cup { [v EXCEPT !.i = x] : x \in {Flip(v.i, 13), Flip(v.i, 16)} }
UtxoAlts(v) == { [v EXCEPT !.id = x] : x \in Fixed(v.id) } \cup { [v EXCEPT !.ix = x] : x \in Small(v.ix) }
BlobFields == {"script", "data", "pred", "pdata"}
Alts(f, v) == CASE f = "ptr" -> PtrAlts(v) [] f = "utxo" -> UtxoAlts(v) [] f \in {"wix", "bwi", "inix"} -> Small(v)
                [] f \in BlobFields -> Blob(v) [] OTHER -> Fixed(v)
HeadFieldNames(t) == CASE t.k = "script" -> {"price", "limit", "maturity", "script", "data", "rroot"}
                       [] t.k = "create" -> {"price", "limit", "maturity", "bcl", "bwi", "salt"} [] t.k = "mint" -> {"ptr"}

Init == /\ a \in {Script0, Create0, Mint0} /\ b = a /\ site = <<>> /\ pc = "build"
AddIn == /\ pc = "build" /\ a.k # "mint" /\ a.outputs = <<>> /\ Len(a.inputs) < MaxIn
         /\ \E i \in Ins(Len(a.inputs) + 1) : a' = [a EXCEPT !.inputs = Append(@, i)]
         /\ UNCHANGED <<b, site, pc>>
AddOut == /\ pc = "build" /\ Len(a.outputs) < MaxOut
          /\ \E o \in Outs(Len(a.outputs) + 1) : a' = [a EXCEPT !.outputs = Append(@, o)]
          /\ UNCHANGED <<b, site, pc>>
Put(n, t) == /\ b' = t /\ site' = n /\ pc' = "done" /\ UNCHANGED a
             /\ Emit(CaseFile, ToJson([op |-> "idpair", a |-> a, b |-> t]))
Change == /\ pc = "build" /\ Focus = "pair"
          /\ \/ \E f \in HeadFieldNames(a) : \E v \in Alts(f, a[f]) : Put(<<"tx", f>>, [a EXCEPT ![f] = v])
             \/ a.k # "mint" /\ \E w \in {<<>>, <<"01", "">>, <<"ff">>} : Put(<<"tx", "wits">>, [a EXCEPT !.wits = w])
             \/ a.k = "create" /\ \E n \in DOMAIN a.slots, f \in {"k", "v"} : \E v \in Fixed(a.slots[n][f]) : Put(<<"slot", f>>, [a EXCEPT !.slots[n][f] = v])
             \/ \E n \in DOMAIN InputsOf(a) : \E f \in DOMAIN a.inputs[n] \ {"t"} :
                  \E v \in Alts(f, a.inputs[n][f]) : Put(<<a.inputs[n].t, f>>, [a EXCEPT !.inputs[n][f] = v])
             \/ \E n \in DOMAIN a.outputs : \E f \in DOMAIN a.outputs[n] \ {"t"} :
                  \E v \in Alts(f, a.outputs[n][f]) : Put(<<"out " \o a.outputs[n].t, f>>, [a EXCEPT !.outputs[n][f] = v])
\* items dropped, swapped, moved between neighbouring fields
Cut(q, n) == SubSeq(q, 1, n - 1) \o SubSeq(q, n + 1, Len(q))
Swap(q) == <<q[2], q[1]>> \o SubSeq(q, 3, Len(q))
Restructure ==
  /\ pc = "build" /\ Focus = "pair"
  /\ \/ \E n \in DOMAIN InputsOf(a) : Put(<<"structure">>, [a EXCEPT !.inputs = Cut(@, n)])
     \/ \E n \in DOMAIN a.outputs : Put(<<"structure">>, [a EXCEPT !.outputs = Cut(@, n)])
     \/ Len(InputsOf(a)) > 1 /\ Put(<<"structure">>, [a EXCEPT !.inputs = Swap(@)])
     \/ Len(a.outputs) > 1 /\ Put(<<"structure">>, [a EXCEPT !.outputs = Swap(@)])
     \/ a.k = "create" /\ Put(<<"structure">>, [a EXCEPT !.slots = Swap(@)])
     \/ a.k = "create" /\ Put(<<"structure">>, [a EXCEPT !.slots = Tail(@)])
     \/ a.k = "script" /\ Put(<<"structure">>, [a EXCEPT !.script = "24", !.data = "0207"])
     \/ \E n \in DOMAIN a.outputs : a.outputs[n].t \in {"coin", "change", "variable"}
          /\ \E t \in {"coin", "change", "variable"} \ {a.outputs[n].t} : Put(<<"structure">>, [a EXCEPT !.outputs[n].t = t])
     \/ \E n \in DOMAIN InputsOf(a) : a.inputs[n].t = "coinSigned"
          /\ Put(<<"structure">>, [a EXCEPT !.inputs[n] = CHOOSE i \in Ins(n) : i.t = "coinPredicate"])
Prepare == /\ pc = "build" /\ Focus = "prep" /\ a.k # "mint" /\ pc' = "done" /\ b' = PrepPred(a) /\ UNCHANGED <<a, site>>
           /\ Emit(CaseFile, ToJson([op |-> "prep", tx |-> a]))
Next == AddIn \/ AddOut \/ Change \/ Restructure \/ Prepare
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
FilledInLater ==
  { <<"tx", "rroot">>, <<"tx", "wits">>, <<"coinSigned", "ptr">>, <<"coinPredicate", "ptr">>,
    <<"contract", "utxo">>, <<"contract", "broot">>, <<"contract", "sroot">>, <<"contract", "ptr">>,
    <<"out contract", "broot">>, <<"out contract", "sroot">>, <<"out message", "recipient">>, <<"out message", "amount">>,
    <<"out change", "amount">>, <<"out variable", "to">>, <<"out variable", "amount">>, <<"out variable", "asset">> }
\* the id is a function of these bytes
IdBytes(t) == Enc(Canon(t))
\* (nothing of a mint transaction is filled in later)
OneField == (pc = "done" /\ Len(site) = 2) => (IdBytes(a) = IdBytes(b) <=> (site \in FilledInLater /\ a.k # "mint"))
\* any two contents with the same id bytes have the same signed content
Structure == (pc = "done" /\ Len(site) = 1) => (IdBytes(a) = IdBytes(b) <=> Canon(a) = Canon(b))

\* the shorter way of computing ids of transactions with lists of equal items
CopiedIds == pc = "build" => \A l \in { m \in DOMAIN a : m \in {"slots", "inputs", "outputs", "wits"} /\ a[m] # <<>> }, n \in {1, 3} :
  BulkId(a, l, a[l][1], n) = TxId(Bulk(a, l, a[l][1], n))

\* C20: fields filled in later are reset, all others are left alone
KeptIn(i) == CASE i.t \in CoinKinds -> DOMAIN i \ {"ptr"} [] i.t = "contract" -> {"t", "cid"} [] OTHER -> DOMAIN i
KeptOut(o) == CASE o.t = "contract" -> {"t", "inix"} [] o.t = "message" -> {"t"} [] o.t = "change" -> {"t", "to", "asset"} [] o.t = "variable" -> {"t"} [] OTHER -> DOMAIN o
DefaultOf(v) == Eq(v, [h |-> ZeroW, i |-> ZeroW]) \/ Eq(v, [id |-> Zero32, ix |-> 0]) \/ Eq(v, Zero32) \/ Eq(v, ZeroW)
ItemOk(x, y, kept) == /\ DOMAIN x = DOMAIN y
                      /\ \A f \in DOMAIN x : IF f \in kept THEN y[f] = x[f] ELSE DefaultOf(y[f])
Prepared == (pc = "done" /\ Focus = "prep") =>
  LET s == PrepScript(a)  q == PrepPred(a) IN
  /\ Len(q.inputs) = Len(a.inputs) /\ Len(q.outputs) = Len(a.outputs)
  /\ \A n \in DOMAIN a.inputs : ItemOk(a.inputs[n], q.inputs[n], KeptIn(a.inputs[n]))
  /\ \A n \in DOMAIN a.outputs : ItemOk(a.outputs[n], q.outputs[n], KeptOut(a.outputs[n]))
  /\ s.inputs = a.inputs
  /\ \A n \in DOMAIN a.outputs : IF a.outputs[n].t = "contract" THEN s.outputs[n] = a.outputs[n] ELSE s.outputs[n] = q.outputs[n]
  /\ PrepScript(s) = s /\ PrepPred(q) = q /\ PrepScript(q) = q /\ PrepPred(s) = q
  /\ IdBytes(s) = IdBytes(a) /\ IdBytes(q) = IdBytes(a)
  /\ Size(q) = Size(a) /\ Offsets(q) = Offsets(a)
=============================================================================
