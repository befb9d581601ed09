------------------------------- MODULE MCRules -------------------------------
(* Bounded model of the validity rules (C01-C04, C13, C14, C26).             *)
(*                                                                           *)
(* A transaction is put together step by step from a small alphabet that     *)
(* depends on Focus, and handed to the checker at any point (Finish). The    *)
(* rules as specified (Rules!Violations) must agree, on every transaction,   *)
(* with what the properties say in terms of the finished transaction: the    *)
(* right-hand sides below are written independently of Rules. Every finished *)
(* transaction is written to CaseFile, to be executed by the real code.      *)
EXTENDS Ledger, Params, Json

CONSTANTS Focus,     \* what the alphabet is about
          MaxIn, MaxOut,   \* how many inputs and outputs are added to the start
          What,      \* which checks the real code is asked for
          CaseFile

VARIABLES tx, h, p, pc, n0
vars == <<tx, h, p, pc, n0>>

(******************************** alphabets *********************************)
B32(x) == Zeros(31) \o x                    \* ids that differ in the last byte
HeadB(x) == x \o Zeros(32 - ByteLen(x))                  \* ... in the first byte
Own == [key |-> 0]
Code(n) == Rep("24", n)
CoinS(u, a) == [t |-> "coinSigned", utxo |-> u, owner |-> Own, amount |-> W(1), asset |-> a, ptr |-> ZeroPtr, wix |-> 0, maturity |-> ZeroW]
CoinP(u, a, n, m) == [t |-> "coinPredicate", utxo |-> u, owner |-> [pred |-> Code(n)], amount |-> W(1), asset |-> a, ptr |-> ZeroPtr, maturity |-> ZeroW,
                      pred |-> Code(n), pdata |-> Code(m)]
Ctr(u, c) == [t |-> "contract", utxo |-> u, broot |-> Zero32, sroot |-> Zero32, ptr |-> ZeroPtr, cid |-> c]
MsgS(m, n) == [t |-> "messageSigned", mid |-> m, sender |-> Zero32, recipient |-> Own, amount |-> W(1), nonce |-> ZeroW, wix |-> 0, data |-> Code(n)]
MsgP(m, n, pl, dl) == [t |-> "messagePredicate", mid |-> m, sender |-> Zero32, recipient |-> [pred |-> Code(pl)], amount |-> W(1), nonce |-> ZeroW,
                       data |-> Code(n), pred |-> Code(pl), pdata |-> Code(dl)]
U(x, i) == [id |-> x, ix |-> i]
Coin(a) == [t |-> "coin", to |-> B32("05"), amount |-> ZeroW, asset |-> a]
Change(a) == [t |-> "change", to |-> B32("05"), amount |-> W(3), asset |-> a]
Variable(a) == [t |-> "variable", to |-> Zero32, amount |-> ZeroW, asset |-> a]
OutC(n) == [t |-> "contract", inix |-> n, broot |-> Zero32, sroot |-> Zero32]
Message == [t |-> "message", recipient |-> B32("06"), amount |-> W(9)]
Created == [t |-> "created", cid |-> B32("07"), sroot |-> Zero32]
AA == B32("aa")  AB == B32("ab")  AC == HeadB("aa")

\* wide transactions: many inputs before the ones that matter, all spending something else
Fill(n, what(_)) == [k \in 1..n |-> what(k)]
FillU(k) == U(SubSeq(W(k), 15, 16) \o Zeros(29) \o SubSeq(W(k), 13, 14) \o "99", k % 256)
FillCoin(k) == CoinP(FillU(k), BASE, 1, 0)
FillAsset(k) == CoinP(FillU(k), FillU(k).id, 1, 0)
FillAny(k) == CASE (k % 3) = 0 -> FillCoin(k) [] (k % 3) = 1 -> Ctr(FillU(k), FillU(k).id) [] OTHER -> MsgP(FillU(k).id, 0, 1, 0)
Near(n) == { x \in { 0, 1, n - 1, n, n + 1, n % 16, n % 128, (n + 16) % 256, (n + 128) % 256, 254, 255 } : x \in 0..255 }

\* positions matter for equality of identifiers: coins get distinct ones unless the focus is duplication
InAlpha ==
  LET n == Len(tx.inputs) + 1  b == SubSeq(W(n), 15, 16)  u == U(HeadB(b \o "01"), n % 256)  m == HeadB(b \o "02")  c == HeadB(b \o "03") IN
  CASE Focus = "C02" -> { CoinS(U(B32("01"), 0), BASE), CoinS(U(B32("01"), 1), BASE), CoinP(U(B32("01"), 0), AA, 1, 0), CoinP(U(HeadB("01"), 0), BASE, 1, 0),
                          Ctr(U(B32("01"), 0), B32("01")), Ctr(U(B32("01"), 0), HeadB("01")), MsgS(B32("01"), 0), MsgP(B32("01"), 0, 1, 0), MsgP(HeadB("01"), 0, 1, 0) }
    [] Focus = "C03" -> { CoinP(u, BASE, 1, 0), Ctr(u, c) }
    [] Focus = "C04" -> { CoinS(u, BASE), CoinP(u, AA, 1, 0), CoinS(u, AB), Ctr(u, c), MsgP(m, 0, 1, 0) }
    [] Focus = "C01" -> { CoinS(u, BASE), MsgS(m, 2) } \cup { CoinP(u, BASE, n1, n2) : n1 \in 1..2, n2 \in {0, 2} }
                         \cup { MsgP(m, n1, n2, 1) : n1 \in {0, 2}, n2 \in 1..2 }
    [] Focus = "C14items" -> { CoinP(u, BASE, 1, 0), CoinP(u, AA, 1, 0), Ctr(u, c) }
    [] Focus = "C02wide" -> UNION { { CoinS(FillU(k), BASE), Ctr(FillU(k), FillU(k).id), MsgP(FillU(k).id, 0, 1, 0) } : k \in { x \in {1, 2, 3, n - 3, n - 2, n - 1} : x > 0 } }
    [] Focus = "C03wide" -> { CoinP(u, BASE, 1, 0), Ctr(u, c) }
    [] Focus = "C04wide" -> { CoinP(u, BASE, 1, 0), CoinP(u, FillU(1).id, 1, 0) }
    [] OTHER -> {}
OutAlpha ==
  CASE Focus = "C03" -> { OutC(n) : n \in 0..MaxIn } \cup { Variable(BASE) }
    [] Focus = "C04" -> { Coin(a) : a \in {BASE, AA, AC} } \cup { Change(a) : a \in {BASE, AA, AB} } \cup { Variable(AC), Message }
    [] Focus = "C14items" -> { Created, OutC(0), Coin(BASE), Coin(AA), Change(BASE), Change(AA), Variable(BASE), Message }
    [] Focus = "C03wide" -> { OutC(n) : n \in Near(n0[1]) }
    [] Focus = "C04wide" -> UNION { { Coin(FillU(k).id), Change(FillU(k).id) } : k \in {1, n0[1], n0[1] + 1} } \cup { Change(BASE) }
    [] Focus = "C13wide" -> { Coin(FillU(k).id) : k \in { 1, 2, n0[2] - 1, n0[2], n0[2] + 1 } \ {0} } \cup { Change(FillU(300).id), OutC(0) }
    [] Focus = "C13" -> { Coin(a) : a \in {BASE, AA, AC} } \cup { [Coin(AA) EXCEPT !.to = B32("09"), !.amount = W(4)], Change(BASE), Variable(BASE), OutC(0), Message, Created }
    [] OTHER -> {}

Script0 == [k |-> "script", price |-> ZeroW, limit |-> ZeroW, maturity |-> ZeroW, script |-> "", data |-> "", rroot |-> Zero32,
            inputs |-> <<>>, outputs |-> <<>>, wits |-> <<[sig |-> 0]>>]
Create0 == [k |-> "create", price |-> ZeroW, limit |-> ZeroW, maturity |-> ZeroW, bcl |-> ZeroW, bwi |-> 1, salt |-> Zero32, slots |-> <<>>,
            inputs |-> <<>>, outputs |-> <<>>, wits |-> <<[sig |-> 0], "">>]
Mint0(bh) == [k |-> "mint", ptr |-> [h |-> bh, i |-> W(1)], outputs |-> <<>>]
Huge == [n \in ParamNames |-> IF n = "gasPriceFactor" THEN W(1) ELSE IF n = "gasPerByte" THEN ZeroW ELSE MaxW]

Widths == {15, 16, 127, 128, 253}
\* contract inputs at these places among n, each with its output
Contracts(n, S) == [Script0 EXCEPT !.inputs = [k \in 1..n |-> IF k \in S THEN Ctr(FillU(k), FillU(k).id) ELSE FillCoin(k)],
                                   !.outputs = LET q == SelectSeq([k \in 1..n |-> k], LAMBDA k : k \in S) IN [k \in DOMAIN q |-> OutC(q[k] - 1)]]
SeqsTo(S, n) == UNION { [1..k -> S] : k \in 0..n }
\* the parameters that are limits, each in turn small
\* words whose low 8, 16 or 32 bits are small
Steep == {"0000000000000100", "0000000000010000", "0000000100000000", "0000000100000001", "8000000000000000"}
LimitNames == ParamNames \ {"gasPriceFactor", "gasPerByte"}
Items(n, x) == [k \in 1..n |-> x]
Start ==
  CASE Focus \in {"C02", "C04"} ->
         {[tx |-> Script0, h |-> ZeroW, p |-> Huge]} \cup (IF Focus = "C04" THEN {[tx |-> Create0, h |-> ZeroW, p |-> Huge]} ELSE {})
    [] Focus = "C03" -> {[tx |-> Script0, h |-> ZeroW, p |-> Huge]}
    [] Focus = "C02wide" -> { [tx |-> [Script0 EXCEPT !.inputs = Fill(n, FillAny), !.outputs = LET q == SelectSeq([k \in 1..n |-> k], LAMBDA k : (k % 3) = 1) IN
                                                        [k \in DOMAIN q |-> OutC(q[k] - 1)]], h |-> ZeroW, p |-> Huge] : n \in Widths }
    [] Focus = "C03wide" -> UNION { { [tx |-> Contracts(n, S), h |-> ZeroW, p |-> Huge] : S \in {{}, {1}, {n}, {1, n \div 2, n}, 1..n} } : n \in Widths }
    [] Focus = "C04wide" -> { [tx |-> [Script0 EXCEPT !.inputs = Fill(n, FillAsset), !.outputs = [k \in 1..(n - 2) |-> IF (k % 2) = 0 THEN Change(FillU(k + 1).id) ELSE Coin(FillU(k + 1).id)]],
                               h |-> ZeroW, p |-> Huge] : n \in Widths }
    [] Focus = "C13wide" -> { [tx |-> [Mint0(ZeroW) EXCEPT !.outputs = [k \in 1..n |-> Coin(FillU(k).id)]], h |-> ZeroW, p |-> [Huge EXCEPT !.maxOutputs = m]]
                              : n \in Widths \cup {254, 255, 256}, m \in {W(255), MaxW} }
    [] Focus = "C14wide" ->
         LET key(k) == [k |-> Zeros(30) \o SubSeq(W(2 * k), 13, 16), v |-> FillU(k).id] IN
         UNION { { [tx |-> [Create0 EXCEPT !.slots = [k \in 1..n |-> IF k = a THEN key(b) ELSE key(k)]], h |-> ZeroW, p |-> [Huge EXCEPT !.maxStorageSlots = W(m)]]
                   : a \in {1, 2, n - 1, n}, b \in {0, 1, 2, n - 1, n, n + 1}, m \in {255, n - 1, n} } : n \in Widths \cup {255, 256, 257} }
    [] Focus = "C01" ->
         LET ps == { [Huge EXCEPT ![f] = W(v)] : f \in LimitNames, v \in 0..2 } \cup { [Huge EXCEPT ![f] = v] : f \in LimitNames, v \in Steep }
                   \cup { [n \in ParamNames |-> IF n = f \/ n = "gasPriceFactor" THEN MaxW ELSE W(2)] : f \in LimitNames }
             shapes == { [Script0 EXCEPT !.limit = W(n)] : n \in 0..3 } \cup { [Script0 EXCEPT !.maturity = W(n)] : n \in 1..3 }
                       \cup { [Script0 EXCEPT !.limit = v] : v \in Steep } \cup { [Script0 EXCEPT !.maturity = v] : v \in Steep }
                       \cup { [Script0 EXCEPT !.script = Code(n), !.data = Code(m)] : n \in 0..3, m \in {0, 3} }
                       \cup { [Script0 EXCEPT !.data = Code(n)] : n \in 1..2 }
                       \cup { [Script0 EXCEPT !.outputs = Items(n, Message)] : n \in 1..3 }
                       \cup { [Script0 EXCEPT !.wits = Items(n, "00") \o @] : n \in 1..2 } \cup {[Script0 EXCEPT !.wits = <<>>]}
                       \cup { [Create0 EXCEPT !.slots = [k \in 1..n |-> [k |-> B32("0" \o DigitOf(k)), v |-> Zero32]]] : n \in 0..3 }
                       \cup { [Create0 EXCEPT !.wits = <<[sig |-> 0], Code(n)>>, !.bcl = W(n \div 4)] : n \in {1, 2, 3, 5} }
         IN { [tx |-> s, h |-> W(2), p |-> q] : s \in shapes, q \in ps }
    [] Focus = "C14bytes" ->
         { [tx |-> [Create0 EXCEPT !.bwi = b, !.bcl = c, !.wits = [k \in DOMAIN ls |-> Code(ls[k])]], h |-> ZeroW, p |-> [Huge EXCEPT !.contractMaxSize = m]]
           : b \in {0, 1, 2, 255}, c \in {W(0), W(1), W(2), "0000000100000001", "ffffffffffffffff"}, ls \in SeqsTo({0, 3, 4, 8, 9}, MaxIn), m \in {W(3), W(4), W(8)} \cup (IF MaxIn > 1 THEN {} ELSE Steep) }
    [] Focus = "C14slots" ->
         LET Key == { B32("01"), B32("02"), HeadB("01"), HeadB("80") } IN
         { [tx |-> [Create0 EXCEPT !.slots = [k \in DOMAIN q |-> [k |-> q[k], v |-> Zero32]]], h |-> ZeroW, p |-> [Huge EXCEPT !.maxStorageSlots = m]]
           : q \in SeqsTo(Key, MaxIn), m \in {W(MaxIn - 2), W(MaxIn)} \cup (IF MaxIn > 3 THEN {} ELSE Steep) }
    [] Focus = "C14items" -> {[tx |-> Create0, h |-> ZeroW, p |-> Huge], [tx |-> Script0, h |-> ZeroW, p |-> Huge]}
    [] Focus = "C13" ->
         { [tx |-> Mint0(bh), h |-> ch, p |-> [Huge EXCEPT !.maxOutputs = m]]
           : bh \in {W(0), W(1), "00000000ffffffff"}, ch \in {W(0), W(1), "00000000ffffffff", "0000000100000000", "0000000100000001"}, m \in {W(0), W(2), W(MaxOut)} \cup Steep }

(********************************** steps ***********************************)
\* when the focus is on something else, a contract input brings its output along
AddIn == /\ pc = "in" /\ tx.k # "mint" /\ Len(tx.inputs) < n0[1] + MaxIn
         /\ \E i \in InAlpha :
              tx' = [tx EXCEPT !.inputs = Append(@, i),
                               !.outputs = IF i.t = "contract" /\ Focus \in {"C02", "C04", "C02wide"} /\ tx.k = "script" THEN Append(@, OutC(Len(tx.inputs))) ELSE @]
         /\ UNCHANGED <<h, p, pc, n0>>
AddOut == /\ pc \in {"in", "out"} /\ Len(SelectSeq(tx.outputs, LAMBDA o : o.t # "contract" \/ Focus \notin {"C02", "C04"})) < n0[2] + MaxOut
          /\ \E o \in OutAlpha : tx' = [tx EXCEPT !.outputs = Append(@, o)]
          /\ pc' = "out"
          /\ UNCHANGED <<h, p, n0>>
Case == [op |-> "check", what |-> What, height |-> h, params |-> p, tx |-> tx]
Finish == /\ pc \in {"in", "out"} /\ pc' = "done" /\ UNCHANGED <<tx, h, p, n0>>
          /\ Emit(CaseFile, ToJson(Case))
Init == \E s \in Start : tx = s.tx /\ h = s.h /\ p = s.p /\ pc = "in" /\ n0 = <<IF s.tx.k = "mint" THEN 0 ELSE Len(s.tx.inputs), Len(s.tx.outputs)>>
Next == AddIn \/ AddOut \/ Finish
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
V == Violations(tx, h, p)
None0(kinds) == \A e \in V : e.e \notin kinds
Le(n, w) == NLe(W(n), w)
Decide(cond) == pc = "done" => cond
L(x) == Len(x) \div 2
Signed == {"coinSigned", "messageSigned"}

\* C01: nothing is larger than its own parameter allows
WithinLimits ==
  /\ NLe(tx.limit, p.maxGasPerTx) /\ NLe(tx.maturity, h)
  /\ Le(Len(tx.inputs), p.maxInputs) /\ Le(Len(tx.outputs), p.maxOutputs) /\ Le(Len(tx.wits), p.maxWitnesses)
  /\ \A k \in DOMAIN tx.inputs : LET i == tx.inputs[k] IN
       /\ "pred" \in DOMAIN i => Le(L(i.pred), p.maxPredicateLength) /\ Le(L(i.pdata), p.maxPredicateDataLength)
       /\ "data" \in DOMAIN i => Le(L(i.data), p.maxMessageDataLength)
  /\ tx.k = "script" => Le(L(tx.script), p.maxScriptLength) /\ Le(L(tx.data), p.maxScriptDataLength)
  /\ tx.k = "create" => Le(Len(tx.slots), p.maxStorageSlots)
                        /\ (tx.bwi < Len(tx.wits) => Le(L(tx.wits[tx.bwi + 1]), p.contractMaxSize))
LimitsHold == Decide(tx.k # "mint" =>
  /\ (V = {} => WithinLimits)
  /\ (WithinLimits => None0(LimitErrors \ {"TransactionCreateBytecodeLen"})))

\* C02: an input is spent once
SameThing(a, b) == \/ "owner" \in DOMAIN a /\ "owner" \in DOMAIN b /\ a.utxo.id = b.utxo.id /\ a.utxo.ix = b.utxo.ix
                   \/ "mid" \in DOMAIN a /\ "mid" \in DOMAIN b /\ a.mid = b.mid
                   \/ "cid" \in DOMAIN a /\ "cid" \in DOMAIN b /\ a.cid = b.cid
NoDoubleSpend == \A j, k \in DOMAIN tx.inputs : j < k => ~ SameThing(tx.inputs[j], tx.inputs[k])
SpentOnce == Decide(tx.k # "mint" => (None0(DuplicateErrors) <=> NoDoubleSpend))

\* C03: contract outputs are a bijection onto contract inputs
CI == { k \in DOMAIN tx.inputs : tx.inputs[k].t = "contract" }
CO == { k \in DOMAIN tx.outputs : tx.outputs[k].t = "contract" }
Bijective == /\ { tx.outputs[k].inix + 1 : k \in CO } = CI
             /\ \A j, k \in CO : tx.outputs[j].inix = tx.outputs[k].inix => j = k
Paired == Decide(tx.k # "mint" => (None0(PairingErrors) <=> Bijective))
\* ... so an accepted transaction has as many of one as of the other
SameNumber == Decide(tx.k # "mint" /\ V = {} => Cardinality(CI) = Cardinality(CO))

\* C04
Supplies(i, a) == ("asset" \in DOMAIN i /\ i.asset = a) \/ ("mid" \in DOMAIN i /\ a = BASE)
AssetsOk == \A k \in DOMAIN tx.outputs : LET o == tx.outputs[k] IN
              o.t \in {"coin", "change"} =>
                /\ \E j \in DOMAIN tx.inputs : Supplies(tx.inputs[j], o.asset)
                /\ o.t = "change" => \A m \in DOMAIN tx.outputs : tx.outputs[m].t = "change" /\ tx.outputs[m].asset = o.asset => m = k
AssetsDecided == Decide(tx.k # "mint" => (None0(AssetErrors) <=> AssetsOk))

\* C14
Sorted(s) == \A j, k \in DOMAIN s : j < k => s[j].k = s[k].k \/ HexLt(s[j].k, s[k].k)
CreateOk ==
  /\ tx.bwi < Len(tx.wits)
  /\ LET n == L(tx.wits[tx.bwi + 1]) IN Le(n, p.contractMaxSize) /\ tx.bcl = W(n \div 4)
  /\ Le(Len(tx.slots), p.maxStorageSlots) /\ Sorted(tx.slots)
  /\ \A k \in DOMAIN tx.inputs : "cid" \notin DOMAIN tx.inputs[k]
  /\ \A k \in DOMAIN tx.outputs : tx.outputs[k].t \notin {"contract", "variable"} /\ (tx.outputs[k].t = "change" => tx.outputs[k].asset = BASE)
  /\ \A j, k \in DOMAIN tx.outputs : tx.outputs[j].t = "created" /\ tx.outputs[k].t = "created" => j = k
CreateDecided == Decide(tx.k = "create" => ((\A e \in V : e.e \notin CreateErrors) <=> CreateOk))
ScriptsCreateNothing == Decide(tx.k = "script" /\ V = {} => \A k \in DOMAIN tx.outputs : tx.outputs[k].t # "created")

\* C13
MintOk == /\ tx.ptr.h = h /\ Le(Len(tx.outputs), p.maxOutputs)
          /\ \A k \in DOMAIN tx.outputs : tx.outputs[k].t = "coin"
          /\ \A j, k \in DOMAIN tx.outputs : j # k => Get(tx.outputs[j], "asset") # Get(tx.outputs[k], "asset")
MintDecided == Decide(tx.k = "mint" => (V = {} <=> MintOk))

\* errors are about something that is there
TrueErrors == Decide(\A e \in V :
  /\ e.e \in {"InputWitnessIndexBounds", "InputPredicateEmpty", "InputPredicateLength", "InputPredicateDataLength", "InputMessageDataLength",
              "InputContractAssociatedOutputContract", "TransactionCreateInputContract"} => e.ix + 1 \in DOMAIN tx.inputs
  /\ e.e \in {"OutputContractInputIndex", "TransactionScriptOutputContractCreated", "TransactionCreateOutputContract"} => e.ix + 1 \in DOMAIN tx.outputs)
=============================================================================
