-------------------------------- MODULE Ident --------------------------------
(* Identity: malleable fields, transaction ids, Merkle roots, contract ids,  *)
(* message ids, predicate addresses.                                         *)
EXTENDS Wire

(************************* fields filled in later ***************************)
\* what preparing for predicate verification does to inputs and outputs; the id
\* additionally drops the receipts root and the witnesses
PrepPredIn(i) == CASE i.t \in CoinKinds -> [i EXCEPT !.ptr = ZeroPtr]
                   [] i.t = "contract" -> [i EXCEPT !.utxo = ZeroUtxo, !.broot = Zero32, !.sroot = Zero32, !.ptr = ZeroPtr]
                   [] OTHER -> i
PrepScriptOut(o) == CASE o.t = "message" -> [o EXCEPT !.recipient = Zero32, !.amount = ZeroW]
                      [] o.t = "change" -> [o EXCEPT !.amount = ZeroW]
                      [] o.t = "variable" -> [o EXCEPT !.to = Zero32, !.amount = ZeroW, !.asset = Zero32]
                      [] OTHER -> o
PrepPredOut(o) == IF o.t = "contract" THEN [o EXCEPT !.broot = Zero32, !.sroot = Zero32] ELSE PrepScriptOut(o)

PrepScript(tx) == [tx EXCEPT !.outputs = [k \in DOMAIN tx.outputs |-> PrepScriptOut(tx.outputs[k])]]
PrepPred(tx) == [tx EXCEPT !.inputs = [k \in DOMAIN tx.inputs |-> PrepPredIn(tx.inputs[k])],
                           !.outputs = [k \in DOMAIN tx.outputs |-> PrepPredOut(tx.outputs[k])]]
\* the signed content of a transaction
Canon(tx) == CASE tx.k = "script" -> [PrepPred(tx) EXCEPT !.rroot = Zero32, !.wits = <<>>]
               [] tx.k = "create" -> [PrepPred(tx) EXCEPT !.wits = <<>>]
               [] tx.k = "mint" -> tx
TxId(tx) == Sha256(Enc(Canon(tx)))
\* the id of a transaction one of whose lists is n copies of an item
BulkId(tx, list, item, n) ==
  LET c == Canon(tx)
      x == CASE list = "inputs" -> PrepPredIn(item) [] list = "outputs" /\ tx.k # "mint" -> PrepPredOut(item) [] OTHER -> item
  IN Sha256(IF list = "wits" THEN Enc([c EXCEPT !.wits = <<>>]) ELSE BulkEnc(c, list, x, n))
\* storage slots in ascending order of their keys, equal keys in the order given
RECURSIVE InsertSlot(_, _)
InsertSlot(s, x) == IF s = <<>> \/ ~ HexLt(x.k, s[Len(s)].k) THEN Append(s, x) ELSE Append(InsertSlot(SubSeq(s, 1, Len(s) - 1), x), s[Len(s)])
RECURSIVE SortSlots(_)
SortSlots(s) == IF s = <<>> THEN <<>> ELSE InsertSlot(SortSlots(SubSeq(s, 1, Len(s) - 1)), s[Len(s)])
SlotCmp(a, b) == IF HexLt(a.k, b.k) THEN -1 ELSE IF HexLt(b.k, a.k) THEN 1 ELSE 0

(****************************** binary Merkle *******************************)
MLeaf(d) == Sha256("00" \o d)
MNode(l, r) == Sha256(Cat(<<"01", l, r>>))
RECURSIVE Pow2Below(_, _)
Pow2Below(n, p) == IF 2 * p >= n THEN p ELSE Pow2Below(n, 2 * p)         \* largest power of two < n, n >= 2
RECURSIVE MRange(_, _, _)
MRange(lv, a, b) == IF a = b THEN MLeaf(lv[a])
                    ELSE LET p == Pow2Below(b - a + 1, 1) IN MNode(MRange(lv, a, a + p - 1), MRange(lv, a + p, b))
MRoot(lv) == IF lv = <<>> THEN Sha256("") ELSE MRange(lv, 1, Len(lv))
\* bytecode in 8-byte leaves, the last one zero-padded
CodeLeaves(code) == LET c == Pad(code) IN [k \in 1..(ByteLen(c) \div 8) |-> Bytes(c, 8 * (k - 1), 8)]
CodeRoot(code) == MRoot(CodeLeaves(code))

(****************************** sparse Merkle *******************************)
SLeaf(s) == Sha256(Cat(<<"00", s.k, Sha256(s.v)>>))
\* bit d (0 = most significant of the first byte) of a 32-byte key
KeyBit(k, d) == LET n == DigitVal(SubSeq(k, d \div 4 + 1, d \div 4 + 1)) IN (n \div (2 ^ (3 - (d % 4)))) % 2
RECURSIVE SRoot(_, _)
SRoot(S, d) == \* S: set of slots with distinct keys that agree on the first d bits
  IF S = {} THEN Zero32
  ELSE IF Cardinality(S) = 1 THEN SLeaf(CHOOSE s \in S : TRUE)
  ELSE MNode(SRoot({s \in S : KeyBit(s.k, d) = 0}, d + 1), SRoot({s \in S : KeyBit(s.k, d) = 1}, d + 1))
\* of several slots with the same key the last one counts... and a tree is a function of the map
LastByKey(slots) == { slots[n] : n \in { m \in DOMAIN slots : \A j \in DOMAIN slots : j > m => slots[j].k # slots[m].k } }
StateRoot(slots) == SRoot(LastByKey(slots), 0)
DistinctKeys(slots) == \A m, n \in DOMAIN slots : slots[m].k = slots[n].k => m = n

ContractSeed == "4655454c"                                                \* "FUEL"
ContractId(salt, root, sroot) == Sha256(Cat(<<ContractSeed, salt, root, sroot>>))

(*************************** messages, predicates ***************************)
MessageId(sender, recipient, nonce, amount, data) == Sha256(Cat(<<sender, recipient, nonce, amount, data>>))
\* idx is a word; only its low byte enters the nonce
MessageNonce(txid, idx) == Sha256(txid \o SubSeq(idx, 15, 16))
PredicateOwner(code) == CodeRoot(code)
KeyOwner(pk) == Sha256(pk)
=============================================================================
