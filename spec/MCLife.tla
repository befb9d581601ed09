-------------------------------- MODULE MCLife -------------------------------
(* Bounded model of the life of a transaction (C08, C11, C12): every         *)
(* sequence of up to Depth operations from a few starting transactions.      *)
(* Ids and signatures are symbolic (the id of a transaction is its signed    *)
(* content, printed), see the M... operators, which the configuration        *)
(* substitutes. hist is hidden from the VIEW, so each state is reached by a  *)
(* shortest history; every transition is written out as a history.           *)
EXTENDS Lifecycle, Params, Json, SequencesExt

CONSTANTS Focus,        \* "life": a few starts, every operation; "sign": many starts, signing only
          Depth, Rich, CaseFile
VARIABLES s, hist, start
vars == <<s, hist, start>>
View == <<s, start>>

MTxId(t) == ToString(Canon(t))
SigW(k, id) == "S" \o DigitOf(k) \o id
MSigOwner(w, id) == IF Len(w) > 2 /\ SubSeq(w, 1, 1) = "S" /\ SubSeq(w, 3, Len(w)) = id
                    THEN [key |-> CHOOSE k \in 0..9 : DigitOf(k) = SubSeq(w, 2, 2)] ELSE [key |-> -1]
MPredicateOwner(c) == [pred |-> c]

Coin(n, o, x) == [t |-> "coinSigned", utxo |-> [id |-> Zero32, ix |-> n], owner |-> [key |-> o], amount |-> W(10), asset |-> BASE,
                  ptr |-> [h |-> W(5), i |-> W(n)], wix |-> x, maturity |-> ZeroW]
Pred(n) == [t |-> "coinPredicate", utxo |-> [id |-> Zero32, ix |-> n], owner |-> [pred |-> "24"], amount |-> W(10), asset |-> BASE,
            ptr |-> [h |-> W(6), i |-> W(n)], maturity |-> ZeroW, pred |-> "24", pdata |-> ""]
Msg(o, x) == [t |-> "messageSigned", mid |-> Zero32, sender |-> Zero32, recipient |-> [key |-> o], amount |-> W(10), nonce |-> ZeroW, wix |-> x, data |-> "ab"]
Change == [t |-> "change", to |-> Zero32, amount |-> W(7), asset |-> BASE]
Script0(ins, outs, wits) == [k |-> "script", price |-> W(1), limit |-> W(3), maturity |-> ZeroW, script |-> "24", data |-> "", rroot |-> Zero32,
                             inputs |-> ins, outputs |-> outs, wits |-> wits]
Create0(ins) == [k |-> "create", price |-> ZeroW, limit |-> ZeroW, maturity |-> ZeroW, bcl |-> ZeroW, bwi |-> 1, salt |-> Zero32, slots |-> <<>>,
                 inputs |-> ins, outputs |-> <<Change>>, wits |-> <<"", "">>]
Mint0 == [k |-> "mint", ptr |-> [h |-> ZeroW, i |-> ZeroW], outputs |-> <<>>]
Signing == { Coin(1, o, x) : o \in 0..1, x \in {0, 1, 2} } \cup { Msg(0, 0), Msg(1, 1), Msg(0, 255), Pred(1) }
At(i, n) == IF i.t \in CoinKinds THEN [i EXCEPT !.utxo.ix = n] ELSE [i EXCEPT !.mid = Zeros(31) \o "0" \o DigitOf(n)]
SignStarts == { Script0([k \in DOMAIN q |-> At(q[k], k)], <<>>, <<"", "">>) : q \in UNION { [1..n -> Signing] : n \in 1..(IF Rich THEN 4 ELSE 3) } }
Starts == IF Focus = "sign" THEN SetToSeq(SignStarts) ELSE
          << Script0(<<Coin(1, 0, 0), Pred(2)>>, <<Change>>, <<"">>),
             Script0(<<Coin(1, 0, 0), Msg(1, 1), Coin(3, 0, 1)>>, <<>>, <<"", "">>),
             Script0(<<Pred(1)>>, <<Change>>, <<"">>),
             Create0(<<Coin(1, 0, 0)>>),
             Mint0 >>
P0 == [n \in ParamNames |-> IF n = "gasPriceFactor" THEN W(1) ELSE IF n = "gasPerByte" THEN ZeroW ELSE MaxW]

Sets(t) == IF t.k = "mint" THEN { [f |-> "ptr", v |-> [h |-> W(x), i |-> ZeroW]] : x \in {0, 1} }
           ELSE { [f |-> "price", v |-> W(x)] : x \in {0, 9} }
                \cup (IF t.k = "script" THEN { [f |-> "rroot", v |-> Rep("01", 32)] } ELSE {[f |-> "salt", v |-> Rep("01", 32)]})
                \cup { [f |-> "wits", v |-> <<"">>] }
                \cup (IF Rich THEN { [f |-> "outputs", v |-> <<>>], [f |-> "maturity", v |-> W(1)] } ELSE {})
Chk == [height |-> ZeroW, params |-> P0]
Events(t) ==
  IF Focus = "sign" THEN { [s |-> "sign", key |-> W(k)] : k \in 0..1 } \cup { [s |-> "checkSig"] } \cup { [s |-> "set", f |-> "wits", v |-> <<"">>] } ELSE
  { [s |-> "set", f |-> x.f, v |-> x.v] : x \in Sets(t) }
  \cup { [s |-> n] : n \in {"precompute", "clone", "reencode", "json", "offs", "checkSig"} }
  \cup { [s |-> n, height |-> ZeroW, params |-> P0] : n \in {"checkWs", "check"} }
  \cup { [s |-> n, form |-> f, height |-> ZeroW, params |-> P0] : n \in {"into", "intoBasic"}, f \in {"enum", "variant"} }
  \cup (IF t.k = "mint" THEN {} ELSE { [s |-> n] : n \in {"prepScript", "prepPred"} } \cup { [s |-> "sign", key |-> W(k)] : k \in 0..1 })
CheckedEvents == { [s |-> n] : n \in {"checkSigs", "toChecked", "toEnum", "toVariant", "clone", "asRef", "offs", "inner"} }

\* the event as the specification takes it: a signer signs one of the ids the value may report
Signed(t, k, id) == [n \in DOMAIN t.wits |-> IF n \in SignPositions(t, [key |-> k]) THEN SigW(k, id) ELSE t.wits[n]]
Full(st, ev) == IF ev.s = "sign"
                THEN LET k == N2I(ev.key) IN { ev @@ [owner |-> [key |-> k], w2 |-> Signed(st.tx, k, id)] : id \in IdsOf(st) }
                ELSE {ev}

Init == \E n \in DOMAIN Starts : s = Bare(Starts[n], <<>>) /\ hist = <<>> /\ start = n
Step(ev) == /\ Len(hist) < Depth
            /\ hist' = Append(hist, ev) /\ start' = start
            /\ \E f \in Full(s, ev) : \E o \in Outcomes(s, f) : s' = o.s
            /\ Emit(CaseFile, ToJson([op |-> "life", tx |-> Starts[start], steps |-> Append(hist, ev)]))
Next == \/ s.st = "bare" /\ \E ev \in Events(s.tx) : Step(ev)
        \/ s.st = "checked" /\ \E ev \in CheckedEvents : Step(ev)
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
Live == s.st \in {"bare", "checked"}
\* C12: what is checked is valid, and stays what it was
CheckedIsValid == s.st = "checked" =>
  /\ Violations(s.tx, ZeroW, P0) = {}
  /\ s.tx.k # "mint" => LedgerViolations(s.tx, P0) = {} /\ Eq(s.meta, MetaOf(s.tx, ZeroW, P0))
  /\ s.checks \in {BasicBit, BasicBit + SigBit}
\* C07 of what is recorded as signed
Owns(i) == IF i.t \in SignedKinds THEN i.wix < Len(s.tx.wits) /\ Eq(MSigOwner(s.tx.wits[i.wix + 1], MTxId(s.tx)), OwnerOf(i))
           ELSE i.t = "contract" \/ Eq(OwnerOf(i), [pred |-> i.pred])
SignedMeansSigned == (s.st = "checked" /\ s.checks = BasicBit + SigBit) => \A k \in DOMAIN InputsOf(s.tx) : Owns(s.tx.inputs[k])
CheckedIsFrozen == [][(s.st = "checked" /\ s'.st = "checked") => s'.tx = s.tx /\ s'.meta = s.meta /\ s'.checks >= s.checks]_vars
TakenOutUnchanged == [][(s.st = "checked" /\ s'.st = "bare") => s'.tx = s.tx]_vars
\* C11: a checked transaction's cache is about its own content; a fresh value reports its own id
CacheAgrees == Live => (s.st = "checked" => s.cache = <<s.tx>>) /\ (Fresh(s) => IdsOf(s) = {MTxId(s.tx)})
\* C08: with both keys signed over the current content, the signatures hold
Keys(t) == { OwnerOf(t.inputs[k]) : k \in { j \in DOMAIN t.inputs : t.inputs[j].t \in SignedKinds } }
OneSignerPerWitness(t) == \A j, k \in DOMAIN t.inputs : (t.inputs[j].t \in SignedKinds /\ t.inputs[k].t \in SignedKinds /\ t.inputs[j].wix = t.inputs[k].wix)
                            => OwnerOf(t.inputs[j]) = OwnerOf(t.inputs[k])
SignAll(t) == Signed([t EXCEPT !.wits = Signed(t, 0, MTxId(t))], 1, MTxId(t))
SigningWorks == (s.st = "bare" /\ s.tx.k # "mint" /\ OneSignerPerWitness(s.tx)
                 /\ \A k \in DOMAIN s.tx.inputs : s.tx.inputs[k].t \in SignedKinds => s.tx.inputs[k].wix < Len(s.tx.wits))
                => SigViolations([s.tx EXCEPT !.wits = SignAll(s.tx)]) = {}
\* signing changes nothing but witnesses, hence not the id
SigningIsQuiet == [][(s.st = "bare" /\ s'.st = "bare" /\ Len(hist') > 0 /\ hist'[Len(hist')].s = "sign")
                      => s'.tx = [s.tx EXCEPT !.wits = s'.tx.wits] /\ MTxId(s'.tx) = MTxId(s.tx)]_vars
\* C09/C20: preparing changes neither the id nor the verdict of signatures
PreparingIsQuiet == [][(s.st = "bare" /\ s'.st = "bare" /\ hist' # hist /\ hist'[Len(hist')].s \in {"prepScript", "prepPred"}) => MTxId(s'.tx) = MTxId(s.tx)]_vars
=============================================================================
