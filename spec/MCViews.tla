-------------------------------- MODULE MCViews ------------------------------
(* Bounded model of the views on the inputs of a transaction (C25).          *)
EXTENDS Rules, Json
CONSTANTS MaxIn, CaseFile
VARIABLES ins, pc
vars == <<ins, pc>>
B32(d) == Rep(d \o "1", 32)
P1 == "24"
P2 == "2401"
Coin(ownr, asset, k) == [t |-> k, utxo |-> [id |-> B32("a"), ix |-> 0], owner |-> ownr, amount |-> W(1), asset |-> asset, ptr |-> ZeroPtr]
Signed(x) == x @@ [wix |-> 0, maturity |-> ZeroW]
WithPred(x, pr) == x @@ [pred |-> pr, pdata |-> ""]
Message(r, k) == [t |-> k, mid |-> B32("7"), sender |-> B32("8"), recipient |-> r, amount |-> W(2), nonce |-> W(3), data |-> "01"]
Assets == {BASE, B32("c"), B32("d")}
Choices == { Signed(Coin(B32("b"), x, "coinSigned")) : x \in Assets }
           \cup { WithPred(Coin(o, x, "coinPredicate") @@ [maturity |-> ZeroW], P1) : o \in {PredicateOwner(P1), PredicateOwner(P2), B32("b")}, x \in {BASE, B32("c")} }
           \cup { [t |-> "contract", utxo |-> [id |-> B32("e"), ix |-> 0], broot |-> Zero32, sroot |-> Zero32, ptr |-> ZeroPtr, cid |-> x] : x \in {B32("1"), B32("2"), Zero32} }
           \cup { Message(B32("b"), "messageSigned") @@ [wix |-> 0] }
           \cup { WithPred(Message(o, "messagePredicate"), P2) : o \in {PredicateOwner(P2), PredicateOwner(P1)} }
Init == ins = <<>> /\ pc = "build"
Add == pc = "build" /\ Len(ins) < MaxIn /\ \E i \in Choices : ins' = Append(ins, i) /\ UNCHANGED pc
Tx(k) == IF k = "script" THEN [k |-> "script", price |-> ZeroW, limit |-> ZeroW, maturity |-> ZeroW, script |-> "", data |-> "", rroot |-> Zero32, inputs |-> ins, outputs |-> <<>>, wits |-> <<>>]
         ELSE [k |-> "create", price |-> ZeroW, limit |-> ZeroW, maturity |-> ZeroW, bcl |-> ZeroW, bwi |-> 0, salt |-> Zero32, slots |-> <<>>, inputs |-> ins, outputs |-> <<>>, wits |-> <<"">>]
Ask == pc = "build" /\ pc' = "done" /\ UNCHANGED ins /\ \A k \in {"script", "create"} : Emit(CaseFile, ToJson([op |-> "views", tx |-> Tx(k)]))
Next == Add \/ Ask
Spec == Init /\ [][Next]_vars

PredOwners == \A k \in DOMAIN ins : ins[k].t \in PredicateKinds => OwnerOf(ins[k]) = PredicateOwner(ins[k].pred)
\* one input at a time
RECURSIVE AssetsOf(_)
AssetsOf(q) == IF q = <<>> THEN <<>> ELSE
  (IF q[1].t \in CoinKinds THEN <<q[1].asset>> ELSE IF q[1].t \in MessageKinds THEN <<BASE>> ELSE <<>>) \o AssetsOf(Tail(q))
InOrder == InputAssetSeq(ins) = AssetsOf(ins)
SameAssets == InputAssets(ins) = Range(AssetsOf(ins)) /\ Cardinality(InputAssets(ins)) <= Len(AssetsOf(ins))
Contracts == /\ ContractIds(ins) = { ins[k].cid : k \in { j \in DOMAIN ins : ins[j].t = "contract" } }
             /\ (ContractIds(ins) = {} <=> \A k \in DOMAIN ins : ins[k].t # "contract")
\* an input more can only add
Grows == [][Len(ins') > Len(ins) => /\ InputAssets(ins) \subseteq InputAssets(ins') /\ ContractIds(ins) \subseteq ContractIds(ins')
                                    /\ SubSeq(InputAssetSeq(ins'), 1, Len(InputAssetSeq(ins))) = InputAssetSeq(ins)]_vars
\* what makes a predicate input valid is its owner, and nothing of the other inputs
OwnersAlone == PredOwners <=> \A k \in DOMAIN ins : SignatureViolation(ins[k], 0, Zero32, <<>>) = {} \/ ins[k].t \notin PredicateKinds
=============================================================================
