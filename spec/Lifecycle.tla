------------------------------ MODULE Lifecycle ------------------------------
(* The life of one transaction value: changing it, caching, signing, checking*)
(* and converting it.                                                        *)
(*                                                                           *)
(* A state is                                                                *)
(*   [st |-> "bare",    tx, cache]                                           *)
(*   [st |-> "checked", tx, cache, form, meta, checks]                       *)
(*   [st |-> "gone"]      the value was consumed by a failing operation      *)
(*   [st |-> "free"]      outside what is specified (see below)              *)
(* cache is <<>> or <<t>>: the content t the cached data was computed from.  *)
(* The cache is NOT invalidated by changing the transaction (the documented  *)
(* contract of Cacheable); what a stale cache reports is left open between   *)
(* the data of t and that of the current content, and encoding with a stale  *)
(* cache is unspecified ("free").                                            *)
EXTENDS Ledger

Gone == [st |-> "gone"]
Free == [st |-> "free"]
Bare(tx, cache) == [st |-> "bare", tx |-> tx, cache |-> cache]
Fresh(s) == s.cache = <<>> \/ s.cache = <<s.tx>>
\* ids a value may report
IdsOf(s) == {TxId(s.tx)} \cup (IF s.cache = <<>> THEN {} ELSE {TxId(s.cache[1])})
\* the states a bare value may be in after its content changed: an implementation may
\* keep, drop or renew the cache
Changed(s, tx) == IF s.cache = <<>> THEN {Bare(tx, <<>>)} ELSE {Bare(tx, s.cache), Bare(tx, <<>>), Bare(tx, <<tx>>)}

MetaOf(tx, h, p) == IF tx.k = "mint" THEN [k |-> "mint"]
                    ELSE [k |-> tx.k, height |-> h, fee |-> FeeMeta(TxFee(tx, p)), bal |-> Balances(tx, p)]
BasicBit == 1
SigBit == 2

Out(s, ok, errs) == [s |-> s, ok |-> ok, errs |-> errs]
OkOut(s) == Out(s, TRUE, {})
ErrOut(s, errs) == Out(s, FALSE, errs)

SetField(tx, f, v) == [tx EXCEPT ![f] = v]
\* witness positions (from 1) of the signed inputs owned by owner
SignPositions(tx, owner) == { tx.inputs[k].wix + 1 : k \in Where(tx.inputs, LAMBDA i : i.t \in SignedKinds /\ OwnerOf(i) = owner) }
                            \cap DOMAIN tx.wits
\* w2 is what the witnesses may look like after owner signed id
SignedWits(tx, owner, id, w2) ==
  /\ Len(w2) = Len(tx.wits)
  /\ \A k \in DOMAIN tx.wits : IF k \in SignPositions(tx, owner) THEN SigOwner(w2[k], id) = owner ELSE w2[k] = tx.wits[k]

SigSets(s) == { SigViolationsFor(s.tx, id) : id \in IdsOf(s) }
SigOuts(s, next) == { IF v = {} THEN OkOut(next) ELSE ErrOut(s, v) : v \in SigSets(s) }

(* All outcomes the specification allows for operation ev in state s.        *)
(* ev.w2 is a candidate for the witnesses after signing (from the trace, or  *)
(* symbolic signatures in the model).                                        *)
BareOutcomes(s, ev) ==
  CASE ev.s = "set" -> { OkOut(n) : n \in Changed(s, SetField(s.tx, ev.f, ev.v)) }
    [] ev.s = "precompute" -> {OkOut(Bare(s.tx, <<s.tx>>))}
    [] ev.s = "sign" -> IF \E id \in IdsOf(s) : SignedWits(s.tx, ev.owner, id, ev.w2)
                        THEN { OkOut(n) : n \in Changed(s, [s.tx EXCEPT !.wits = ev.w2]) } ELSE {}
    [] ev.s = "prepScript" -> { OkOut(n) : n \in Changed(s, PrepScript(s.tx)) }
    [] ev.s = "prepPred" -> { OkOut(n) : n \in Changed(s, PrepPred(s.tx)) }
    [] ev.s = "clone" -> {OkOut(s)}
    [] ev.s = "reencode" -> IF Fresh(s) THEN {OkOut(Bare(NormTx(s.tx), <<>>))} ELSE {OkOut(Free)}
    [] ev.s = "json" -> {OkOut(Bare(s.tx, <<>>))}
    [] ev.s = "offs" -> {OkOut(s)}
    [] ev.s = "checkSig" -> SigOuts(s, s)
    [] ev.s = "checkWs" -> LET v == Violations(s.tx, ev.height, ev.params) IN {IF v = {} THEN OkOut(s) ELSE ErrOut(s, v)}
    [] ev.s = "check" -> LET v == Violations(s.tx, ev.height, ev.params) IN
                         { IF v \cup x = {} THEN OkOut(s) ELSE ErrOut(s, v \cup x) : x \in SigSets(s) }
    [] ev.s \in {"into", "intoBasic"} ->
         LET v == BasicViolations(s.tx, ev.height, ev.params)
             x == IF ev.s = "into" THEN SigViolations(s.tx) ELSE {}
         IN IF v \cup x # {} THEN {ErrOut(Gone, v \cup x)}
            ELSE {OkOut([st |-> "checked", tx |-> s.tx, cache |-> <<s.tx>>,
                         form |-> IF ev.form = "enum" THEN "enum" ELSE s.tx.k,
                         meta |-> MetaOf(s.tx, ev.height, ev.params),
                         checks |-> IF ev.s = "into" THEN BasicBit + SigBit ELSE BasicBit])}
CheckedOutcomes(s, ev) ==
  CASE ev.s = "checkSigs" -> IF s.checks = BasicBit + SigBit THEN {OkOut(s)}
                             ELSE LET v == SigViolations(s.tx) IN
                                  IF v = {} THEN {OkOut([s EXCEPT !.checks = BasicBit + SigBit])} ELSE {ErrOut(Gone, v)}
    [] ev.s = "toChecked" -> {OkOut([s EXCEPT !.form = "checkedEnum"])}
    [] ev.s = "toEnum" -> {OkOut([s EXCEPT !.form = "enum"])}
    [] ev.s = "toVariant" -> {OkOut([s EXCEPT !.form = s.tx.k])}
    [] ev.s \in {"clone", "asRef", "offs"} -> {OkOut(s)}
    [] ev.s = "inner" -> {OkOut(Bare(s.tx, s.cache))}
Outcomes(s, ev) == CASE s.st = "bare" -> BareOutcomes(s, ev)
                     [] s.st = "checked" -> CheckedOutcomes(s, ev)
                     [] OTHER -> {}

(********************** matching against observations ***********************)
\* metadata as the harness reports it: balances as a list of [a, x]
BalOk(list, bal) == /\ { list[k].a : k \in DOMAIN list } = DOMAIN bal
                    /\ Len(list) = Cardinality(DOMAIN bal)
                    /\ \A k \in DOMAIN list : list[k].x = bal[list[k].a]
MetaOk(m, meta) == IF meta.k = "mint" THEN Eq(m, meta)
                   ELSE /\ Eq(Get(m, "k"), meta.k) /\ Eq(Get(m, "height"), meta.height) /\ Eq(Get(m, "fee"), meta.fee)
                        /\ BalOk(Get(m, "bal"), meta.bal)
ObsOk(s, o) ==
  CASE s.st = "free" -> TRUE
    [] s.st = "gone" -> Eq(Get(o, "st"), "gone")
    [] s.st = "bare" -> /\ Eq(Get(o, "st"), "bare") /\ Eq(Get(o, "tx"), s.tx)
                        /\ Eq(Get(o, "cached"), s.cache # <<>>)
                        /\ \E id \in IdsOf(s) : Eq(Get(o, "id"), id)
    [] s.st = "checked" -> /\ Eq(Get(o, "st"), "checked") /\ Eq(Get(o, "form"), s.form) /\ Eq(Get(o, "tx"), s.tx)
                           /\ Eq(Get(o, "cached"), TRUE) /\ Eq(Get(o, "id"), TxId(s.tx))
                           /\ Eq(Get(o, "checks"), s.checks) /\ MetaOk(Get(o, "meta"), s.meta)
ResOk(s, out, ev) ==
  LET r == ev.res IN
  IF out.s = Free THEN TRUE ELSE
  /\ IF out.ok THEN Eq(Get(r, "r"), "ok") ELSE Eq(Get(r, "r"), "err") /\ \E e \in out.errs : Eq(Get(r, "err"), e)
  /\ (out.ok /\ ev.s \in {"clone", "asRef", "json"}) => Eq(Get(r, "same"), TRUE) \/ (s.st = "checked" /\ ev.s = "clone")
  /\ (out.ok /\ ev.s = "reencode" /\ Fresh(s)) =>
       Eq(Get(r, "bytes"), Enc(s.tx)) /\ Eq(Get(r, "same"), NormTx(s.tx) = s.tx)
  /\ (ev.s = "offs" /\ Fresh(s)) => Eq(Get(r, "offs"), Offsets(s.tx)) /\ Eq(Get(r, "metered"), IF s.tx.k = "mint" THEN 0 ELSE Metered(s.tx))
  /\ (ev.s = "inner") => MetaOk(Get(r, "meta"), s.meta)

(* One observed step: the states it may have led to. The trace checker keeps *)
(* the set of states consistent with everything observed so far.             *)
StepSet(S, ev) ==
  IF Free \in S THEN {Free}
  ELSE LET cand(s) == { o \in Outcomes(s, ev) : ResOk(s, o, ev) /\ ObsOk(o.s, ev.st) }
       IN { o.s : o \in UNION { cand(s) : s \in S } }
=============================================================================
