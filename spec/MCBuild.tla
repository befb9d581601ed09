-------------------------------- MODULE MCBuild ------------------------------
(* Bounded model of the transaction builder (C23): every sequence of up to   *)
(* Depth builder calls from a small set, and each way of finishing.          *)
(* Builder.tla accumulates; the properties restate the result from the       *)
(* sequence of calls alone.                                                  *)
EXTENDS Builder, Params, Json

CONSTANTS Kinds, Depth, CaseFile
VARIABLES c, b, steps, code, pc
vars == <<c, b, steps, code, pc>>

B32(d) == Rep(d \o "1", 32)
Salt == B32("a")
Bytecode == "24000000"
TheSlots == <<[k |-> B32("1"), v |-> B32("2")]>>
Created == [t |-> "created", cid |-> ContractId(Salt, CodeRoot(Bytecode), StateRoot(TheSlots)), sroot |-> StateRoot(TheSlots)]
Pred == "24"
Owner(n) == B32(DigitOf(8 + n))                 \* symbolic addresses of the keys
Utxo(n) == [id |-> B32("c"), ix |-> n]
ThePtr == [h |-> W(3), i |-> W(4)]
Starts == (IF "script" \in Kinds THEN { [kind |-> "script", script |-> s, data |-> "01"] : s \in {"", "24"} } ELSE {})
          \cup (IF "create" \in Kinds THEN { [kind |-> "create", bytecode |-> Bytecode, salt |-> Salt, slots |-> s] : s \in {<<>>, TheSlots} } ELSE {})
          \cup (IF "mint" \in Kinds THEN { [kind |-> "mint", h |-> W(1), i |-> W(2)] } ELSE {})

\* the default transactions (what they are does not matter; the observed ones are used on the recorded executions)
Def(k) == CASE k = "script" -> [NewScript("24400000", "").tx EXCEPT !.limit = W(9)] [] k = "create" -> [NewCreate("", Zero32, <<>>).tx EXCEPT !.wits = <<>>] [] OTHER -> NewMint(ZeroW, ZeroW).tx
FinishCall == [s |-> "finish", v |-> TRUE, def |-> Def(c.kind)]
\* the calls that can come as number n
Calls(n) ==
  IF c.kind = "mint" THEN <<[s |-> "output", v |-> [t |-> "coin", to |-> B32("3"), amount |-> W(n), asset |-> B32(DigitOf(n))]],
                            [s |-> "output", v |-> [t |-> "coin", to |-> B32("3"), amount |-> W(n), asset |-> BASE]],
                            [s |-> "output", v |-> [t |-> "variable", to |-> B32("3"), amount |-> W(n), asset |-> BASE]], FinishCall>>
  ELSE << [s |-> "price", v |-> W(n)], [s |-> "limit", v |-> W(n)], [s |-> "maturity", v |-> W(n)],
          [s |-> "input", v |-> [t |-> "coinPredicate", utxo |-> Utxo(n), owner |-> PredicateOwner(Pred), amount |-> W(n), asset |-> BASE, ptr |-> ThePtr, maturity |-> ZeroW,
                                 pred |-> Pred, pdata |-> "07"]],
          [s |-> "input", v |-> [t |-> "coinSigned", utxo |-> Utxo(n), owner |-> Owner(1), amount |-> W(n), asset |-> BASE, ptr |-> ThePtr, wix |-> 1, maturity |-> W(n)]],
          [s |-> "input", v |-> [t |-> "contract", utxo |-> Utxo(n), broot |-> B32("4"), sroot |-> B32("5"), ptr |-> ThePtr, cid |-> B32("6")]],
          [s |-> "output", v |-> [t |-> "contract", inix |-> 0, broot |-> B32("4"), sroot |-> B32("5")]],
          [s |-> "output", v |-> [t |-> "variable", to |-> B32("3"), amount |-> W(n), asset |-> B32("7")]],
          [s |-> "output", v |-> [t |-> "message", recipient |-> B32("3"), amount |-> W(n)]],
          [s |-> "output", v |-> [t |-> "coin", to |-> B32("3"), amount |-> W(1), asset |-> BASE]],
          [s |-> "output", v |-> Created],
          [s |-> "witness", v |-> Rep("0" \o DigitOf(n), n)],
          [s |-> "coin", key |-> W(1), owner |-> Owner(1), utxo |-> Utxo(n), amount |-> W(1000 + n), asset |-> BASE, ptr |-> ThePtr, maturity |-> W(n)],
          [s |-> "coin", key |-> W(2), owner |-> Owner(2), utxo |-> Utxo(0), amount |-> W(1000 + n), asset |-> BASE, ptr |-> ThePtr, maturity |-> ZeroW],
          [s |-> "message", key |-> W(1), owner |-> Owner(1), sender |-> B32("7"), nonce |-> W(n), amount |-> W(1000), data |-> Rep("0" \o DigitOf(n), n)],
          [s |-> "prepScript", v |-> FALSE], [s |-> "prepScript", v |-> TRUE], [s |-> "prepPred", v |-> TRUE], [s |-> "prepPred", v |-> FALSE], FinishCall >>

StartOf(x) == CASE x.kind = "script" -> NewScript(x.script, x.data) [] x.kind = "create" -> NewCreate(x.bytecode, x.salt, x.slots) [] OTHER -> NewMint(x.h, x.i)
Init == c \in Starts /\ b = StartOf(c) /\ steps = <<>> /\ code = 0 /\ pc = "build"
Call == /\ pc = "build" /\ Len(steps) < Depth
        /\ LET calls == Calls(Len(steps) + 1) IN
           \E k \in DOMAIN calls : b' = BStep(b, calls[k]) /\ steps' = Append(steps, calls[k]) /\ code' = (7 * code + k) % 1009
        /\ UNCHANGED <<c, pc>>
Fins == <<"sign", "signTx", "bare", "bareTx", "checked", "basic">>
WithFin(f) == c @@ [op |-> "build", height |-> W(1), params |-> DefaultParams, steps |-> steps, fin |-> f]
Finish == /\ pc = "build" /\ pc' = "done" /\ UNCHANGED <<c, b, steps, code>>
          /\ IF Len(steps) <= 1 THEN \A k \in DOMAIN Fins : Emit(CaseFile, ToJson(WithFin(Fins[k])))
             ELSE /\ Emit(CaseFile, ToJson(WithFin(Fins[1 + ((code + Len(steps)) % 6)]))) /\ Emit(CaseFile, ToJson(WithFin(Fins[5])))
Next == Call \/ Finish
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
Is(k, S) == steps[k].s \in S
\* where the transaction under construction began: after the latest finishing
Since == LET at == { k \in DOMAIN steps : Is(k, {"finish"}) } IN IF at = {} THEN 0 ELSE CHOOSE k \in at : \A j \in at : j <= k
LastFrom(from, name, dflt) == LET at == { k \in DOMAIN steps : k > from /\ Is(k, {name}) } IN
                    IF at = {} THEN dflt ELSE steps[CHOOSE k \in at : \A j \in at : j <= k].v
Last(name, dflt) == LastFrom(0, name, dflt)
Among(S) == SelectSeq([k \in DOMAIN steps |-> k], LAMBDA k : k > Since /\ Is(k, S))
InCalls == Among({"input", "coin", "message"})
WitCalls == Among({"witness", "coin", "message"})
OutCalls == Among({"output"})
Base == IF c.kind = "create" /\ Since = 0 THEN 1 ELSE 0      \* witnesses there from the start
\* every call is found in the result, in order, and nothing else
Accumulates ==
  /\ b.tx.outputs = [k \in DOMAIN OutCalls |-> steps[OutCalls[k]].v]
  /\ c.kind # "mint" =>
       /\ LET t0 == IF Since = 0 THEN StartOf(c).tx ELSE Def(c.kind) IN
          /\ b.tx.price = LastFrom(Since, "price", t0.price) /\ b.tx.limit = LastFrom(Since, "limit", t0.limit)
          /\ b.tx.maturity = LastFrom(Since, "maturity", t0.maturity)
          /\ [b.tx EXCEPT !.price = t0.price, !.limit = t0.limit, !.maturity = t0.maturity, !.inputs = <<>>, !.outputs = <<>>, !.wits = t0.wits] = t0
       /\ Len(b.tx.inputs) = Len(InCalls) /\ Len(b.tx.wits) = Base + Len(WitCalls)
       /\ \A k \in DOMAIN InCalls : LET s == steps[InCalls[k]]  i == b.tx.inputs[k] IN
            CASE s.s = "input" -> i = s.v
              [] s.s = "coin" -> i.t = "coinSigned" /\ i.utxo = s.utxo /\ i.owner = s.owner /\ i.amount = s.amount /\ i.asset = s.asset /\ i.ptr = s.ptr /\ i.maturity = s.maturity
              [] s.s = "message" -> i.t = "messageSigned" /\ i.sender = s.sender /\ i.recipient = s.owner /\ i.nonce = s.nonce /\ i.amount = s.amount /\ i.data = s.data
                                    /\ i.mid = MessageId(s.sender, s.owner, s.nonce, s.amount, s.data)
       /\ \A k \in DOMAIN WitCalls : b.tx.wits[Base + k] = (IF Is(WitCalls[k], {"witness"}) THEN steps[WitCalls[k]].v ELSE "")
  /\ c.kind = "script" /\ Since = 0 => b.tx.script = c.script /\ b.tx.data = c.data /\ b.tx.rroot = Zero32
  /\ c.kind = "create" /\ Since = 0 => b.tx.salt = c.salt /\ b.tx.slots = c.slots /\ b.tx.wits[1] = c.bytecode /\ b.tx.bwi = 0 /\ b.tx.bcl = W(ByteLen(c.bytecode) \div 4)
\* every unsigned input has a witness of its own, at the place its call made
OwnWitness == \A k \in DOMAIN InCalls : Is(InCalls[k], {"coin", "message"}) =>
                 LET before == Cardinality({ j \in DOMAIN WitCalls : WitCalls[j] < InCalls[k] }) IN b.tx.inputs[k].wix = Base + before
\* after signing with all keys the signature check holds, unless an input brought along by the caller is in the way
Alien == \E k \in DOMAIN steps : Is(k, {"input"}) /\ steps[k].v.t \in SignedKinds
SigningSuffices == c.kind # "mint" /\ ~ Alien => SigWouldHold(b, Prepared(b)) /\ SigWouldHold(b, b.tx)
\* the keys are those of all unsigned inputs ever added, in order
Keys == LET ks == SelectSeq(steps, LAMBDA s : s.s \in {"coin", "message"}) IN b.keyList = [k \in DOMAIN ks |-> ks[k].owner]
\* preparation happens as asked and touches nothing but what it may
PreparesAsAsked ==
  LET ps == Last("prepScript", c.kind = "script")  pp == Last("prepPred", FALSE)  t == Prepared(b) IN
  c.kind # "mint" => /\ ~ ps /\ ~ pp => t = b.tx
                     /\ pp => t = PrepPred(t)
                     /\ ps => t = PrepScript(t)
                     /\ t.wits = b.tx.wits /\ t.price = b.tx.price /\ Len(t.inputs) = Len(b.tx.inputs)
\* preparation does not change the identity, so the signatures are valid for it
SameId == c.kind # "mint" => TxId(Prepared(b)) = TxId(b.tx)
=============================================================================
