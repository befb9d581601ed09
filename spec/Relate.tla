-------------------------------- MODULE Relate -------------------------------
(* When two values are the same, and how values that have an order compare.  *)
EXTENDS Receipts

\* the contract a panic receipt was in is not part of what makes two receipts equal
Told(r) == IF r.t = "panic" THEN [r EXCEPT !.pcid = "none"] ELSE r
Same(ty, a, b) == IF ty = "receipt" THEN Eq(Told(Built(a)), Told(Built(b))) ELSE Eq(a, b)

\* positions: an output id by transaction and output, a transaction pointer by block and index
Rank(ty, v) == CASE ty = "utxo" -> <<v.id, W(v.ix)>> [] ty = "ptr" -> <<v.h, v.i>>
                 [] ty = "fee" -> <<v.min, v.total, v.minGas, v.maxGas>>
RECURSIVE Lex(_, _, _)
Lex(x, y, k) == IF k > Len(x) THEN 0 ELSE IF HexLt(x[k], y[k]) THEN -1 ELSE IF HexLt(y[k], x[k]) THEN 1 ELSE Lex(x, y, k + 1)
Compare(ty, a, b) == Lex(Rank(ty, a), Rank(ty, b), 1)
Ordered == {"utxo", "ptr", "fee"}
=============================================================================
