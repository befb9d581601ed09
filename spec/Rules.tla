-------------------------------- MODULE Rules --------------------------------
(* The validity rules of transactions. Violations(tx, h, p) is the set of    *)
(* ALL rules the transaction breaks, as the error records that may truthfully*)
(* be reported for them; a transaction is valid iff the set is empty. In     *)
(* which order an implementation looks for them is deliberately left open.   *)
(*   error record: [e |-> name, ix |-> index or -1, id |-> identifier or "", *)
(*                  x, y |-> amounts or ""]                                  *)
EXTENDS Ident

E(name) == [e |-> name, ix |-> -1, id |-> "", x |-> "", y |-> ""]
EI(name, ix) == [E(name) EXCEPT !.ix = ix]
ED(name, id) == [E(name) EXCEPT !.id = id]

\* a length or count against a 64-bit parameter
Exceeds(n, limit) == NLt(limit, W(n))
\* items of a sequence, by position
Where(s, P(_)) == { k \in DOMAIN s : P(s[k]) }

InputAsset(i) == IF i.t \in CoinKinds THEN i.asset ELSE BASE
InputAssets(ins) == { InputAsset(ins[k]) : k \in Where(ins, LAMBDA i : i.t # "contract") }
InputAssetSeq(ins) == LET q == SelectSeq(ins, LAMBDA i : i.t # "contract") IN [k \in DOMAIN q |-> InputAsset(q[k])]
ContractIds(ins) == { ins[k].cid : k \in Where(ins, LAMBDA i : i.t = "contract") }
Predicate0(i) == i.t \in PredicateKinds

(******************************* per input **********************************)
\* ix is the position in the transaction, counted from 0
InputViolations(i, ix, outs, nwits, p) ==
  UNION {
    IF Predicate0(i) /\ i.pred = "" THEN {EI("InputPredicateEmpty", ix)} ELSE {},
    IF Predicate0(i) /\ Exceeds(ByteLen(i.pred), p.maxPredicateLength) THEN {EI("InputPredicateLength", ix)} ELSE {},
    IF Predicate0(i) /\ Exceeds(ByteLen(i.pdata), p.maxPredicateDataLength) THEN {EI("InputPredicateDataLength", ix)} ELSE {},
    IF i.t \in SignedKinds /\ i.wix >= nwits THEN {EI("InputWitnessIndexBounds", ix)} ELSE {},
    IF i.t \in MessageKinds /\ Exceeds(ByteLen(i.data), p.maxMessageDataLength) THEN {EI("InputMessageDataLength", ix)} ELSE {},
    IF i.t = "contract" /\ Cardinality(Where(outs, LAMBDA o : o.t = "contract" /\ o.inix = ix)) # 1
      THEN {EI("InputContractAssociatedOutputContract", ix)} ELSE {} }
OutputViolations(o, ix, ins) ==
  IF o.t = "contract" /\ ~ (o.inix < Len(ins) /\ ins[o.inix + 1].t = "contract")
  THEN {EI("OutputContractInputIndex", ix)} ELSE {}

(******************************** common part *******************************)
Limits(tx, h, p) ==
  UNION {
    IF NLt(p.maxGasPerTx, tx.limit) THEN {E("TransactionGasLimit")} ELSE {},
    IF NLt(h, tx.maturity) THEN {E("TransactionMaturity")} ELSE {},
    IF Exceeds(Len(tx.inputs), p.maxInputs) THEN {E("TransactionInputsMax")} ELSE {},
    IF Exceeds(Len(tx.outputs), p.maxOutputs) THEN {E("TransactionOutputsMax")} ELSE {},
    IF Exceeds(Len(tx.wits), p.maxWitnesses) THEN {E("TransactionWitnessesMax")} ELSE {} }

\* identifiers that occur in more than one of the inputs selected by P
Dups(ins, P(_), id(_)) ==
  LET sel == SelectSeq(ins, P)
      ids == { id(sel[k]) : k \in DOMAIN sel }
  IN { d \in ids : Cardinality({ k \in DOMAIN sel : id(sel[k]) = d }) > 1 }
Duplicates(ins) ==
  { [EI("DuplicateInputUtxoId", u.ix) EXCEPT !.id = u.id] : u \in Dups(ins, LAMBDA i : i.t \in CoinKinds, LAMBDA i : i.utxo) }
  \cup { ED("DuplicateInputContractId", c) : c \in Dups(ins, LAMBDA i : i.t = "contract", LAMBDA i : i.cid) }
  \cup { ED("DuplicateMessageInputId", m) : m \in Dups(ins, LAMBDA i : i.t \in MessageKinds, LAMBDA i : i.mid) }

AssetRules(ins, outs) ==
  LET assets == InputAssets(ins)
      of(t) == { outs[k].asset : k \in Where(outs, LAMBDA o : o.t = t) }
      nchange(a) == Cardinality(Where(outs, LAMBDA o : o.t = "change" /\ o.asset = a))
  IN { ED("TransactionOutputChangeAssetIdDuplicated", a) : a \in { x \in assets : nchange(x) > 1 } }
     \cup { ED("TransactionOutputChangeAssetIdNotFound", a) : a \in of("change") \ assets }
     \cup { ED("TransactionOutputCoinAssetIdNotFound", a) : a \in of("coin") \ assets }

PerInput(ins, outs, nwits, p) == UNION { InputViolations(ins[k], k - 1, outs, nwits, p) : k \in DOMAIN ins }
PerItem(ins, outs, nwits, p) ==
  PerInput(ins, outs, nwits, p)
  \cup UNION { OutputViolations(outs[k], k - 1, ins) : k \in DOMAIN outs }

Common(tx, h, p) == Limits(tx, h, p) \cup Duplicates(tx.inputs) \cup AssetRules(tx.inputs, tx.outputs)
                    \cup PerItem(tx.inputs, tx.outputs, Len(tx.wits), p)

(********************************* by kind **********************************)
ScriptOnly(tx, p) ==
  UNION {
    IF Exceeds(ByteLen(tx.script), p.maxScriptLength) THEN {E("TransactionScriptLength")} ELSE {},
    IF Exceeds(ByteLen(tx.data), p.maxScriptDataLength) THEN {E("TransactionScriptDataLength")} ELSE {},
    { EI("TransactionScriptOutputContractCreated", k - 1) : k \in Where(tx.outputs, LAMBDA o : o.t = "created") } }

CreateOnly(tx, p) ==
  LET created == Where(tx.outputs, LAMBDA o : o.t = "created") IN
  UNION {
    IF tx.bwi >= Len(tx.wits) THEN {E("TransactionCreateBytecodeWitnessIndex")}
    ELSE LET n == ByteLen(tx.wits[tx.bwi + 1]) IN
         IF Exceeds(n, p.contractMaxSize) \/ W(n \div 4) # tx.bcl THEN {E("TransactionCreateBytecodeLen")} ELSE {},
    IF Exceeds(Len(tx.slots), p.maxStorageSlots) THEN {E("TransactionCreateStorageSlotMax")} ELSE {},
    IF \E k \in 1..(Len(tx.slots) - 1) : HexLt(tx.slots[k + 1].k, tx.slots[k].k) THEN {E("TransactionCreateStorageSlotOrder")} ELSE {},
    { EI("TransactionCreateInputContract", k - 1) : k \in Where(tx.inputs, LAMBDA i : i.t = "contract") },
    { EI("TransactionCreateOutputContract", k - 1) : k \in Where(tx.outputs, LAMBDA o : o.t = "contract") },
    { EI("TransactionCreateOutputVariable", k - 1) : k \in Where(tx.outputs, LAMBDA o : o.t = "variable") },
    { EI("TransactionCreateOutputChangeNotBaseAsset", k - 1) : k \in Where(tx.outputs, LAMBDA o : o.t = "change" /\ o.asset # BASE) },
    { EI("TransactionCreateOutputContractCreatedMultiple", k - 1) : k \in { j \in created : \E m \in created : m < j } } }

MintOnly(tx, h, p) ==
  LET coins == SelectSeq(tx.outputs, LAMBDA o : o.t = "coin")
      assets == { coins[k].asset : k \in DOMAIN coins }
  IN UNION {
    IF Exceeds(Len(tx.outputs), p.maxOutputs) THEN {E("TransactionOutputsMax")} ELSE {},
    IF tx.ptr.h # h THEN {E("TransactionMintIncorrectBlockHeight")} ELSE {},
    IF Len(coins) # Len(tx.outputs) THEN {E("TransactionMintOutputIsNotCoin")} ELSE {},
    { ED("TransactionOutputCoinAssetIdDuplicated", a) :
        a \in { x \in assets : Cardinality({ k \in DOMAIN coins : coins[k].asset = x }) > 1 } } }

Violations(tx, h, p) ==
  CASE tx.k = "script" -> Common(tx, h, p) \cup ScriptOnly(tx, p)
    [] tx.k = "create" -> Common(tx, h, p) \cup CreateOnly(tx, p)
    [] tx.k = "mint" -> MintOnly(tx, h, p)
Valid(tx, h, p) == Violations(tx, h, p) = {}

(******************************* signatures *********************************)
OwnerOf(i) == IF i.t \in CoinKinds THEN i.owner ELSE i.recipient
\* the address whose key made signature w over id, or ""
SigOwner(w, id) == IF ByteLen(w) # 64 THEN "" ELSE LET pk == EcRecover(w, id) IN IF pk = "" THEN "" ELSE KeyOwner(pk)
SignatureViolation(i, ix, id, wits) ==
  CASE i.t \in SignedKinds ->
         IF i.wix >= Len(wits) THEN {EI("InputWitnessIndexBounds", ix)}
         ELSE IF SigOwner(wits[i.wix + 1], id) # OwnerOf(i) THEN {EI("InputInvalidSignature", ix)} ELSE {}
    [] i.t \in PredicateKinds -> IF PredicateOwner(i.pred) # OwnerOf(i) THEN {EI("InputPredicateOwner", ix)} ELSE {}
    [] OTHER -> {}
\* with respect to a given id
SigViolationsFor(tx, id) == UNION { SignatureViolation(InputsOf(tx)[k], k - 1, id, WitsOf(tx)) : k \in DOMAIN InputsOf(tx) }
SigViolations(tx) == SigViolationsFor(tx, TxId(tx))

\* which rule belongs to which property (for attributing a wrong verdict)
LimitErrors == {"TransactionGasLimit", "TransactionMaturity", "TransactionInputsMax", "TransactionOutputsMax", "TransactionWitnessesMax",
                "InputPredicateLength", "InputPredicateDataLength", "InputMessageDataLength",
                "TransactionScriptLength", "TransactionScriptDataLength", "TransactionCreateStorageSlotMax", "TransactionCreateBytecodeLen"}
DuplicateErrors == {"DuplicateInputUtxoId", "DuplicateInputContractId", "DuplicateMessageInputId"}
PairingErrors == {"InputContractAssociatedOutputContract", "OutputContractInputIndex"}
AssetErrors == {"TransactionOutputChangeAssetIdDuplicated", "TransactionOutputChangeAssetIdNotFound", "TransactionOutputCoinAssetIdNotFound"}
MintErrors == {"TransactionOutputsMax", "TransactionMintIncorrectBlockHeight", "TransactionMintOutputIsNotCoin", "TransactionOutputCoinAssetIdDuplicated"}
CreateErrors == {"TransactionCreateBytecodeWitnessIndex", "TransactionCreateBytecodeLen", "TransactionCreateStorageSlotMax",
                 "TransactionCreateStorageSlotOrder", "TransactionCreateInputContract", "TransactionCreateOutputContract",
                 "TransactionCreateOutputVariable", "TransactionCreateOutputChangeNotBaseAsset",
                 "TransactionCreateOutputContractCreatedMultiple", "TransactionScriptOutputContractCreated"}
=============================================================================
