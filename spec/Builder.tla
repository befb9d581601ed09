------------------------------- MODULE Builder -------------------------------
(* The transaction builder: an accumulator of what was asked for.            *)
(*   [tx, keys (owner addresses), prepScript, prepPred]                      *)
EXTENDS Lifecycle

NewScript(script, data) ==
  [tx |-> [k |-> "script", price |-> ZeroW, limit |-> ZeroW, maturity |-> ZeroW, script |-> script, data |-> data,
           rroot |-> Zero32, inputs |-> <<>>, outputs |-> <<>>, wits |-> <<>>],
   keys |-> {}, keyList |-> <<>>, prepScript |-> TRUE, prepPred |-> FALSE]
NewCreate(code, salt, slots) ==
  [tx |-> [k |-> "create", price |-> ZeroW, limit |-> ZeroW, maturity |-> ZeroW, bcl |-> W(ByteLen(code) \div 4), bwi |-> 0,
           salt |-> salt, slots |-> slots, inputs |-> <<>>, outputs |-> <<>>, wits |-> <<code>>],
   keys |-> {}, keyList |-> <<>>, prepScript |-> FALSE, prepPred |-> FALSE]
NewMint(h, i) == [tx |-> [k |-> "mint", ptr |-> [h |-> h, i |-> i], outputs |-> <<>>],
                  keys |-> {}, keyList |-> <<>>, prepScript |-> FALSE, prepPred |-> FALSE]

AddIn(b, i) == [b EXCEPT !.tx.inputs = Append(@, i)]
AddOwn(b, i, owner) == [b EXCEPT !.tx.inputs = Append(@, i), !.tx.wits = Append(@, ""), !.keys = @ \cup {owner}, !.keyList = Append(@, owner)]
\* ev.owner is the address of the key of an unsigned input
BStep(b, ev) ==
  CASE ev.s = "price" -> [b EXCEPT !.tx.price = ev.v]
    [] ev.s = "limit" -> [b EXCEPT !.tx.limit = ev.v]
    [] ev.s = "maturity" -> [b EXCEPT !.tx.maturity = ev.v]
    [] ev.s = "input" -> AddIn(b, ev.v)
    [] ev.s = "output" -> [b EXCEPT !.tx.outputs = Append(@, ev.v)]
    [] ev.s = "witness" -> [b EXCEPT !.tx.wits = Append(@, ev.v)]
    [] ev.s = "coin" ->
         AddOwn(b, [t |-> "coinSigned", utxo |-> ev.utxo, owner |-> ev.owner, amount |-> ev.amount, asset |-> ev.asset,
                    ptr |-> ev.ptr, wix |-> Len(b.tx.wits), maturity |-> ev.maturity], ev.owner)
    [] ev.s = "message" ->
         AddOwn(b, [t |-> "messageSigned", mid |-> MessageId(ev.sender, ev.owner, ev.nonce, ev.amount, ev.data),
                    sender |-> ev.sender, recipient |-> ev.owner, amount |-> ev.amount, nonce |-> ev.nonce,
                    wix |-> Len(b.tx.wits), data |-> ev.data], ev.owner)
    [] ev.s = "prepScript" -> [b EXCEPT !.prepScript = ev.v]
    [] ev.s = "prepPred" -> [b EXCEPT !.prepPred = ev.v]
    \* a finished builder starts over from the default transaction (ev.def), with its keys and settings
    [] ev.s = "finish" -> [b EXCEPT !.tx = ev.def]
RECURSIVE BRun(_, _, _)
BRun(b, evs, n) == IF n = 0 THEN b ELSE BStep(BRun(b, evs, n - 1), evs[n])

\* the finished transaction, up to the signatures
Prepared(b) == LET t1 == IF b.prepPred THEN PrepPred(b.tx) ELSE b.tx IN IF b.prepScript THEN PrepScript(t1) ELSE t1
\* w2 is a possible content of the witnesses after signing with all keys
AllSigned(b, tx, w2) ==
  /\ Len(w2) = Len(WitsOf(tx))
  /\ \A k \in DOMAIN w2 :
       LET by == { o \in b.keys : k \in SignPositions(tx, o) } IN
       IF by = {} THEN w2[k] = WitsOf(tx)[k] ELSE SigOwner(w2[k], TxId(tx)) \in by
\* would the signature check hold after all keys have signed?
SigWouldHold(b, tx) ==
  \A n \in DOMAIN InputsOf(tx) :
    LET i == tx.inputs[n] IN
    CASE i.t \in SignedKinds ->
           /\ i.wix < Len(tx.wits)
           /\ LET by == { o \in b.keys : i.wix + 1 \in SignPositions(tx, o) } IN
              IF by = {} THEN SigOwner(tx.wits[i.wix + 1], TxId(tx)) = OwnerOf(i) ELSE by = {OwnerOf(i)}
      [] i.t \in PredicateKinds -> PredicateOwner(i.pred) = OwnerOf(i)
      [] OTHER -> TRUE
=============================================================================
