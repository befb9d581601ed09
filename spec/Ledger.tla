-------------------------------- MODULE Ledger -------------------------------
(* Fees and value conservation.                                              *)
EXTENDS Rules

(********************************** fees ************************************)
NoFee == [r |-> "none"]
\* every 64-bit intermediate result must fit
FeeOf(p, bytes, limit, price) ==
  LET bg == NMul(p.gasPerByte, bytes)
      mg == NAdd(bg, limit)
      bt == NMul(bg, price)
      tt == NMul(mg, price)
  IN IF ~ (FitsU64(bg) /\ FitsU64(mg) /\ FitsU64(bt) /\ FitsU64(tt)) THEN NoFee
     ELSE [r |-> "ok", min |-> NDivCeil(bt, p.gasPriceFactor), total |-> NDivCeil(tt, p.gasPriceFactor),
           minGas |-> bg, maxGas |-> mg]
Refund(p, gas, price) == LET v == NDiv(NMul(gas, price), p.gasPriceFactor) IN
                         IF FitsU64(v) THEN [r |-> "ok", x |-> v] ELSE [r |-> "none"]
TxFee(tx, p) == FeeOf(p, W(Metered(tx)), tx.limit, tx.price)

(******************************** balances **********************************)
RECURSIVE NSumTo(_, _)
NSumTo(s, n) == IF n = 0 THEN ZeroW ELSE NAdd(s[n], NSumTo(s, n - 1))
NSum(s) == NSumTo(s, Len(s))
InSum(ins, a) == LET q == SelectSeq(ins, LAMBDA i : i.t # "contract" /\ InputAsset(i) = a) IN NSum([k \in DOMAIN q |-> q[k].amount])
CoinOuts(outs, a) == SelectSeq(outs, LAMBDA o : o.t = "coin" /\ o.asset = a)
OutSum(outs, a) == LET q == CoinOuts(outs, a) IN NSum([k \in DOMAIN q |-> q[k].amount])

\* coin outputs of one asset are paid in order out of bal; the error for the first unpaid one
RECURSIVE Unpaid(_, _, _)
Unpaid(q, a, bal) ==
  IF q = <<>> THEN {}
  ELSE IF NLt(bal, q[1].amount)
       THEN {[E("InsufficientInputAmount") EXCEPT !.id = a, !.x = q[1].amount, !.y = bal]}
       ELSE Unpaid(Tail(q), a, NSub(bal, q[1].amount))

LedgerAssets(tx) == InputAssets(tx.inputs) \cup {BASE}
\* everything that stops a transaction (that passed the rules) from being checked
LedgerViolations(tx, p) ==
  LET assets == LedgerAssets(tx)
      sum == [a \in assets |-> InSum(tx.inputs, a)]
      fee == TxFee(tx, p)
      over == { a \in assets : ~ FitsU64(sum[a]) }
  IN IF over # {} \/ fee.r = "none" THEN {E("ArithmeticOverflow")}
     ELSE (IF NLt(sum[BASE], fee.total) THEN {[E("InsufficientFeeAmount") EXCEPT !.x = fee.total, !.y = sum[BASE]]}
           ELSE Unpaid(CoinOuts(tx.outputs, BASE), BASE, NSub(sum[BASE], fee.total)))
          \cup UNION { Unpaid(CoinOuts(tx.outputs, a), a, sum[a]) : a \in assets \ {BASE} }

\* defined when LedgerViolations is empty
Balances(tx, p) == LET assets == LedgerAssets(tx)  fee == TxFee(tx, p) IN
  [a \in assets |-> LET b == NSub(InSum(tx.inputs, a), OutSum(tx.outputs, a)) IN IF a = BASE THEN NSub(b, fee.total) ELSE b]

(******************************* full checks ********************************)
\* errors with which into_checked_basic may truthfully fail
BasicViolations(tx, h, p) ==
  Violations(tx, h, p) \cup (IF tx.k = "mint" THEN {} ELSE LedgerViolations(tx, p))
FeeMeta(f) == [min |-> f.min, total |-> f.total, minGas |-> f.minGas, maxGas |-> f.maxGas]
=============================================================================
