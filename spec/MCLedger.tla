------------------------------- MODULE MCLedger ------------------------------
(* Bounded model of fees and value conservation (C05, C06).                  *)
(* Transactions are put together from inputs and outputs with amounts from   *)
(* Amounts; Fit sets the amount of one input so that the inputs cover the    *)
(* outputs and the fee exactly, or miss or exceed it by one.                 *)
EXTENDS Ledger, Params, Json

CONSTANTS Focus, MaxIn, MaxOut, CaseFile
VARIABLES tx, p, pc
vars == <<tx, p, pc>>

AA == Zeros(31) \o "aa"
Top == "8000000000000000"
InAmounts == {W(0), W(1), Top, MaxW}
OutAmounts == {W(0), W(1), MaxW}
U(n) == [id |-> Zeros(31) \o "0" \o DigitOf(n), ix |-> 0]
CoinP(n, a, x) == [t |-> "coinPredicate", utxo |-> U(n), owner |-> [pred |-> "24"], amount |-> x, asset |-> a, ptr |-> ZeroPtr, maturity |-> ZeroW,
                   pred |-> "24", pdata |-> ""]
CoinS(n, a, x) == [t |-> "coinSigned", utxo |-> U(n), owner |-> [key |-> 0], amount |-> x, asset |-> a, ptr |-> ZeroPtr, wix |-> 0, maturity |-> ZeroW]
MsgP(n, x) == [t |-> "messagePredicate", mid |-> U(n).id, sender |-> Zero32, recipient |-> [pred |-> "24"], amount |-> x, nonce |-> ZeroW,
               data |-> "", pred |-> "24", pdata |-> ""]
MsgS(n, x) == [t |-> "messageSigned", mid |-> U(n).id, sender |-> Zero32, recipient |-> [key |-> 0], amount |-> x, nonce |-> ZeroW, wix |-> 0, data |-> "01"]
Ctr(n) == [t |-> "contract", utxo |-> U(n), broot |-> Zero32, sroot |-> Zero32, ptr |-> ZeroPtr, cid |-> U(n).id]
Coin(a, x) == [t |-> "coin", to |-> Zero32, amount |-> x, asset |-> a]
OutC(n) == [t |-> "contract", inix |-> n, broot |-> Zero32, sroot |-> Zero32]
Ignored == { [t |-> "change", to |-> Zero32, amount |-> MaxW, asset |-> BASE], [t |-> "variable", to |-> Zero32, amount |-> MaxW, asset |-> BASE],
             [t |-> "message", recipient |-> Zero32, amount |-> MaxW] }

\* gasPerByte, gasPriceFactor, price, limit
Prices == { <<W(0), W(1), W(0), W(0)>>, <<W(0), W(1), W(1), W(1)>>, <<W(4), W(3), W(1), W(2)>>, <<W(1), W(1000000000), W(1), W(5)>>,
            <<W(0), W(1), MaxW, W(1)>>, <<W(0), W(1), MaxW, W(2)>>, <<MaxW, W(1), W(0), W(0)>>, <<W(1), W(2), W(0), MaxW>>, <<W(0), W(2), W(1), MaxW>>,
            <<W(0), Top, W(2), Top>> }
Script0(q) == [k |-> "script", price |-> q[3], limit |-> q[4], maturity |-> ZeroW, script |-> "", data |-> "", rroot |-> Zero32,
               inputs |-> <<>>, outputs |-> <<>>, wits |-> <<[sig |-> 0]>>]
Create0(q) == [k |-> "create", price |-> q[3], limit |-> q[4], maturity |-> ZeroW, bcl |-> ZeroW, bwi |-> 1, salt |-> Zero32, slots |-> <<>>,
               inputs |-> <<>>, outputs |-> <<>>, wits |-> <<[sig |-> 0], "">>]
ParamsFor(q) == [n \in ParamNames |-> IF n = "gasPerByte" THEN q[1] ELSE IF n = "gasPriceFactor" THEN q[2] ELSE MaxW]

Init == \E q \in Prices : /\ tx \in {Script0(q)} \cup (IF Focus = "C05" THEN {Create0(q)} ELSE {})
                          /\ p = ParamsFor(q) /\ pc = "in"
AddIn == /\ pc = "in" /\ Len(tx.inputs) < MaxIn
         /\ LET n == Len(tx.inputs) + 1 IN
            \/ \E a \in {BASE, AA}, x \in InAmounts : tx' = [tx EXCEPT !.inputs = Append(@, IF n % 2 = 0 THEN CoinS(n, a, x) ELSE CoinP(n, a, x))]
            \/ \E x \in InAmounts : tx' = [tx EXCEPT !.inputs = Append(@, IF n % 2 = 0 THEN MsgP(n, x) ELSE MsgS(n, x))]
            \/ tx.k = "script" /\ tx' = [tx EXCEPT !.inputs = Append(@, Ctr(n)), !.outputs = Append(@, OutC(n - 1))]
         /\ UNCHANGED <<p, pc>>
AddOut == /\ pc \in {"in", "out"} /\ Len(SelectSeq(tx.outputs, LAMBDA o : o.t # "contract")) < MaxOut
          /\ \/ \E a \in {BASE, AA}, x \in OutAmounts : tx' = [tx EXCEPT !.outputs = Append(@, Coin(a, x))]
             \/ \E o \in Ignored : (tx.k = "script" \/ o.t # "variable") /\ tx' = [tx EXCEPT !.outputs = Append(@, o)]
          /\ pc' = "out" /\ UNCHANGED p

\* what asset a needs: its coin outputs and, for the base asset, the fee
RECURSIVE Total(_, _, _, _)
Total(s, n, P(_), x) == IF n = 0 THEN x ELSE Total(s, n - 1, P, IF P(s[n]) THEN NAdd(x, s[n].amount) ELSE x)
IsOf(i, a) == (Has(i, "owner") /\ i.asset = a) \/ (Has(i, "mid") /\ a = BASE)
In(t, a) == Total(t.inputs, Len(t.inputs), LAMBDA i : IsOf(i, a), ZeroW)
Out0(t, a) == Total(t.outputs, Len(t.outputs), LAMBDA o : o.t = "coin" /\ o.asset = a, ZeroW)
Fee == TxFee(tx, p)
Need(a) == IF a = BASE /\ Fee.r = "ok" THEN NAdd(Out0(tx, a), Fee.total) ELSE Out0(tx, a)

Fit == /\ pc \in {"in", "out"} /\ Fee.r = "ok"
       /\ \E k \in DOMAIN tx.inputs, a \in {BASE, AA}, d \in {0, 1, 2} :
            /\ IsOf(tx.inputs[k], a)
            /\ LET without == [tx EXCEPT !.inputs[k].amount = ZeroW]
                   target == NAdd(Need(a), W(d))             \* one more than is meant
                   have == NAdd(In(without, a), W(1))
                   x == IF NLt(target, have) THEN MaxW ELSE NSub(target, have)
               IN FitsU64(x) /\ tx' = [tx EXCEPT !.inputs[k].amount = x]
       /\ pc' = "fit" /\ UNCHANGED p
Finish == /\ pc # "done" /\ pc' = "done" /\ UNCHANGED <<tx, p>>
          /\ Emit(CaseFile, ToJson([op |-> "check", what |-> "ws,basic", height |-> ZeroW, params |-> p, tx |-> tx]))
          /\ Focus = "C06" => Emit(CaseFile, ToJson([op |-> "fee", params |-> p, bytes |-> W(Metered(tx)), limit |-> tx.limit, price |-> tx.price,
                                                     balance |-> IF Fee.r = "ok" THEN Fee.total ELSE MaxW, tx |-> tx]))
Next == AddIn \/ AddOut \/ Fit \/ Finish
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
Passes == pc = "done" /\ Violations(tx, ZeroW, p) = {}
V == LedgerViolations(tx, p)
As == {BASE} \cup { a \in {AA} : \E k \in DOMAIN tx.inputs : IsOf(tx.inputs[k], a) }
Covered == /\ Fee.r = "ok"
           /\ \A a \in As : FitsU64(In(tx, a)) /\ NLe(Need(a), In(tx, a))
\* C05: accepted exactly if every asset is covered
ExactlyCovered == Passes => (V = {} <=> Covered)
\* ... and what goes in is what comes out, what stays and what is paid
Conserved == (Passes /\ V = {}) =>
  LET b == Balances(tx, p) IN
  /\ DOMAIN b = As
  /\ \A a \in As : FitsU64(b[a]) /\ In(tx, a) = NAdd(b[a], Need(a))
\* errors carry true amounts
TrueAmounts == Passes => \A e \in V :
  /\ e.e = "InsufficientFeeAmount" => e.x = Fee.total /\ e.y = In(tx, BASE) /\ NLt(e.y, e.x)
  /\ e.e = "InsufficientInputAmount" => /\ e.id \in As /\ NLt(e.y, e.x)
                                        /\ \E k \in DOMAIN tx.outputs : tx.outputs[k].t = "coin" /\ tx.outputs[k].asset = e.id /\ tx.outputs[k].amount = e.x
  /\ e.e = "ArithmeticOverflow" => Fee.r = "none" \/ \E a \in As : ~ FitsU64(In(tx, a))
\* C06: the fee is the smallest number of coins that pays for the gas
F0 == p.gasPriceFactor
Least(fee, gas) == LET cost == NMul(gas, tx.price) IN
                   NLe(cost, NMul(fee, F0)) /\ (fee # ZeroW => NLt(NMul(NSub(fee, W(1)), F0), cost))
FeeLaws == (pc = "done" /\ Fee.r = "ok") =>
  /\ Least(Fee.min, Fee.minGas) /\ Least(Fee.total, Fee.maxGas)
  /\ NLe(Fee.min, Fee.total)
  /\ Fee.maxGas = NAdd(Fee.minGas, tx.limit)
\* witnesses are not charged for
WitnessesAreFree == pc = "done" => TxFee([tx EXCEPT !.wits = Append(@, "00ff")], p) = Fee
\* unused gas is never refunded with more than it cost
RefundLaws == (pc = "done" /\ Fee.r = "ok") =>
  \A g \in {ZeroW, W(1), tx.limit} :
    NLe(g, tx.limit) => LET r == Refund(p, g, tx.price)
                            rest == NDivCeil(NMul(NSub(Fee.maxGas, g), tx.price), p.gasPriceFactor)
                        IN r.r = "ok" => NLe(NAdd(r.x, rest), Fee.total)
=============================================================================
