-------------------------------- MODULE Judge --------------------------------
(* Conformance: what the specification says about a recorded execution of    *)
(* the real code. A record is a case (operation and arguments) with the      *)
(* observations `obs` the harness made. Fails(rec) is the set of ways in     *)
(* which the record contradicts property Prop; a record is judged only on    *)
(* what the property claims.                                                 *)
EXTENDS Builder, Relate, Text, Params

CONSTANT Prop

Chk(props, cond, msg) == IF Prop \in props THEN (IF cond THEN {} ELSE {msg}) ELSE {}
All(S, P(_), msg) == IF \A x \in S : P(x) THEN {} ELSE {msg}
Panicked(v) == Has(v, "panic") \/ (Has(v, "r") /\ Eq(Get(v, "r"), "panic"))
IsOk(v) == Eq(Get(v, "r"), "ok")
IsErr(v) == Eq(Get(v, "r"), "err")
None(v) == Eq(v, "\\missing")

(********************************* checks ***********************************)
\* one verdict against the rules a property is about: acceptance means none of them is
\* broken, an error of that kind must be one that is really there
VerdictFor(v, viol, kinds) ==
  IF None(v) THEN TRUE
  ELSE IF Panicked(v) THEN FALSE
  ELSE IF IsOk(v) THEN \A e \in viol : e.e \notin kinds
  ELSE v.err.e \in kinds => \E e \in viol : Eq(e, v.err)

KindsOf == [ C01 |-> LimitErrors, C02 |-> DuplicateErrors, C03 |-> PairingErrors, C04 |-> AssetErrors,
             C13 |-> MintErrors, C14 |-> CreateErrors ]
RuleProps == {"C01", "C02", "C03", "C04", "C13", "C14"}
\* the properties a transaction kind is relevant for
Applies(tx) == CASE Prop = "C13" -> tx.k = "mint" [] OTHER -> tx.k # "mint"
WsKinds == {"InputWitnessIndexBounds", "InputPredicateEmpty"}
SigKinds == {"InputWitnessIndexBounds", "InputInvalidSignature", "InputPredicateOwner"}

RuleFails(c, o) ==
  LET viol == Violations(c.tx, c.height, c.params)
      kinds == KindsOf[Prop]
      entry(n) == IF VerdictFor(Get(o, n), viol, kinds) THEN {} ELSE {n \o ": verdict contradicts the rules"}
      complete(v) == (viol = {} /\ Prop \in {"C13", "C14"} /\ (Prop = "C13" \/ c.tx.k = "create")) => IsOk(v)
      ins == InputsOf(c.tx)
      perIn(k) == VerdictFor(o.perInput[k].ws, InputViolations(ins[k], k - 1, c.tx.outputs, Len(c.tx.wits), c.params), kinds)
      perOut(k) == VerdictFor(o.perOutput[k], OutputViolations(c.tx.outputs[k], k - 1, ins), kinds)
  IN entry("ws") \cup entry("wsVar") \cup entry("full") \cup entry("basic") \cup entry("into")
     \cup (IF complete(o.ws) THEN {} ELSE {"ws: a valid transaction is rejected"})
     \cup (IF Has(o, "perInput") THEN All(DOMAIN ins, perIn, "perInput: verdict contradicts the rules")
                                      \cup All(DOMAIN c.tx.outputs, perOut, "perOutput: verdict contradicts the rules") ELSE {})

\* C05: only for transactions that pass the unsigned check
LedgerFails(c, o) ==
  LET viol == LedgerViolations(c.tx, c.params)
      bal == Balances(c.tx, c.params)
      one(n) ==
        LET v == Get(o, n) IN
        IF None(v) THEN {}
        ELSE IF Panicked(v) THEN {n \o ": panics"}
        ELSE IF IsOk(v)
        THEN IF viol # {} THEN {n \o ": accepted although not covered"}
             ELSE IF BalOk(v.c.meta.bal, bal) THEN {} ELSE {n \o ": wrong balances"}
        ELSE IF n = "into" /\ v.err.e \in SigKinds THEN {}
        ELSE IF viol = {} THEN {n \o ": rejected although covered"}
        ELSE IF \E e \in viol : Eq(e, v.err) THEN {} ELSE {n \o ": untrue error"}
  IN IF c.tx.k = "mint" \/ ~ IsOk(o.ws) THEN {} ELSE one("basic") \cup one("into")

CheckFeeFails(c, o) ==
  IF c.tx.k = "mint" \/ ~ IsOk(Get(o, "basic")) THEN {}
  ELSE LET f == TxFee(c.tx, c.params) IN
       IF f.r = "ok" /\ Eq(o.basic.c.meta.fee, FeeMeta(f)) THEN {} ELSE {"basic: wrong fee"}

\* C07: with respect to the id the transaction reports
AuthFails(c, o) ==
  LET viol == SigViolationsFor(c.tx, o.id)
      rules == IF c.tx.k = "mint" THEN {} ELSE PerInput(c.tx.inputs, c.tx.outputs, Len(c.tx.wits), c.params)
      one(n) == LET v == Get(o, n) IN
                IF None(v) THEN {}
                ELSE IF Panicked(v) THEN {n \o ": panics"}
                ELSE IF IsOk(v) THEN (IF viol = {} THEN {} ELSE {n \o ": unauthorized input accepted"})
                ELSE IF \E e \in viol : Eq(e, v.err) THEN {} ELSE {n \o ": untrue error"}
      \* entry points that also look at other things
      two(n) == LET v == Get(o, n) IN
                IF None(v) THEN {}
                ELSE IF Panicked(v) THEN {n \o ": panics"}
                ELSE IF IsOk(v) THEN (IF viol = {} THEN {} ELSE {n \o ": unauthorized input accepted"})
                ELSE IF v.err.e \in SigKinds THEN (IF \E e \in viol \cup rules : Eq(e, v.err) THEN {} ELSE {n \o ": untrue error"})
                ELSE {}
      pre(n) == IF VerdictFor(Get(o, n), rules, WsKinds) THEN {} ELSE {n \o ": witness bounds or empty predicate"}
      ins == InputsOf(c.tx)
      per(k) == LET v == o.perInput[k].sig  x == SignatureViolation(ins[k], k - 1, o.id, c.tx.wits) IN
                IF Panicked(v) THEN FALSE ELSE IF IsOk(v) THEN x = {} ELSE \E e \in x : Eq(e, v.err)
  IN one("sig") \cup one("sigVar") \cup one("sigPre") \cup two("full") \cup two("into")
     \cup pre("ws") \cup pre("basic")
     \cup (IF Has(o, "perInput") THEN All(DOMAIN ins, per, "perInput: signature verdict") ELSE {})

\* C12: the ways of checking agree with each other, and what comes out is what went in
CheckedOk(v, tx, checks) == Eq(v.tx, tx) /\ Eq(v.checks, checks)
StageFails(c, o) ==
  LET tx == c.tx
      sigs == SigViolationsFor(tx, o.id)
      ok(n) == IsOk(Get(o, n))
      vb == Get(o.variant, "basic")
      vi == Get(o.variant, "into")
      vmeta(m) == IF tx.k = "mint" THEN [k |-> "mint"] ELSE [k |-> tx.k, m |-> [height |-> m.height, fee |-> m.fee, bal |-> m.bal]]
  IN UNION {
    IF ok("full") = (ok("ws") /\ ok("sig")) THEN {} ELSE {"full check differs from the two partial checks"},
    IF ok("basic") => ok("ws") THEN {} ELSE {"basic: checked although the basic check fails"},
    IF ok("into") = (ok("basic") /\ ok("sig")) THEN {} ELSE {"into_checked differs from basic and signature checks"},
    IF ok("into") => sigs = {} THEN {} ELSE {"into: signatures recorded as checked but not valid"},
    IF ok("basic") THEN
       UNION { IF CheckedOk(o.basic.c, tx, BasicBit) THEN {} ELSE {"basic: content or record of checks"},
               IF tx.k # "mint" => Eq(o.basic.c.meta.height, c.height) THEN {} ELSE {"basic: block height"},
               IF Eq(o.basic.c.meta.k, tx.k) THEN {} ELSE {"basic: metadata of another kind"},
               IF IsOk(o.basic.then) = ok("sig") THEN {} ELSE {"check_signatures differs on the checked transaction"},
               IF IsOk(o.basic.then) THEN IF CheckedOk(o.basic.then.c, tx, BasicBit + SigBit) /\ Eq(o.basic.then.c.meta, o.basic.c.meta) THEN {}
                                          ELSE {"check_signatures: content, metadata or record of checks"} ELSE {} }
    ELSE {},
    IF ok("into") /\ ok("basic") THEN IF CheckedOk(o.into.c, tx, BasicBit + SigBit) /\ Eq(o.into.c.meta, o.basic.c.meta) /\ Eq(o.into.eq, TRUE) THEN {}
                       ELSE {"into: content, metadata or record of checks"} ELSE {},
    IF Has(o, "variant") THEN
       IF Panicked(o.variant) THEN {"variant: panics"} ELSE
       UNION { IF IsOk(vb) = ok("basic") /\ IsOk(vi) = ok("into") THEN {} ELSE {"variant: verdict differs from the enum's"},
               IF IsOk(vb) /\ ok("basic") THEN IF Eq(vb.checks, BasicBit) /\ Eq(vb.info, vmeta(o.basic.c.meta)) THEN {} ELSE {"variant: metadata or record of checks"} ELSE {},
               IF IsOk(vi) /\ ok("into") THEN IF Eq(vi.checks, BasicBit + SigBit) /\ Eq(vi.info, vmeta(o.into.c.meta)) THEN {} ELSE {"variant into: metadata or record of checks"} ELSE {},
               IF IsOk(vi) /\ ok("into") THEN IF Eq(vi.asEnum, o.into.c) THEN {} ELSE {"variant into: conversion to the enum"} ELSE {} }
    ELSE {} }

\* C26
PureFails(c, o) ==
  LET same(a, b) == None(Get(o, a)) \/ None(Get(o, b)) \/ Eq(Get(o, a), Get(o, b))
      normal == NormTx(c.tx) = c.tx
      verdicts == {"ws", "wsVar", "sigVar", "precompute", "wsPre", "sigPre", "fullPre", "wsRe", "sigRe", "ws2", "sig2", "sig", "full", "basic", "into", "variant"}
  IN UNION {
    UNION { IF None(Get(o, n)) \/ ~ Panicked(Get(o, n)) THEN {} ELSE {n \o ": panics"} : n \in verdicts },
    UNION { IF same(p[1], p[2]) THEN {} ELSE {p[1] \o " and " \o p[2] \o " differ"} :
            p \in {<<"ws", "wsVar">>, <<"ws", "wsPre">>, <<"ws", "ws2">>, <<"sig", "sigVar">>, <<"sig", "sigPre">>, <<"sig", "sig2">>, <<"full", "fullPre">>} },
    IF normal THEN UNION { IF same(p[1], p[2]) THEN {} ELSE {p[1] \o " and " \o p[2] \o " differ"} : p \in {<<"ws", "wsRe">>, <<"sig", "sigRe">>} } ELSE {},
    IF Has(o, "after") => Eq(o.after, c.tx) /\ Eq(o.afterPre, c.tx) THEN {} ELSE {"checking changed the transaction"},
    IF IsOk(Get(o, "basic")) => Eq(o.basic.c.tx, c.tx) THEN {} ELSE {"basic: content changed"},
    IF IsOk(Get(o, "into")) => Eq(o.into.c.tx, c.tx) /\ Eq(o.into.eq, TRUE) THEN {} ELSE {"into: content changed"},
    IF Has(o, "variant") /\ Has(o, "basic") /\ Has(o, "into") /\ ~ Panicked(o.variant)
       THEN IF IsOk(o.variant.basic) = IsOk(o.basic) /\ IsOk(o.variant.into) = IsOk(o.into) THEN {} ELSE {"variant: verdict differs from the enum's"} ELSE {},
    IF Has(o, "perInput") THEN
       All(DOMAIN o.perInput, LAMBDA k : ~ Panicked(o.perInput[k].ws) /\ ~ Panicked(o.perInput[k].sig) /\ ~ Panicked(o.perInput[k].full)
                                         /\ (IsOk(o.perInput[k].full) = (IsOk(o.perInput[k].ws) /\ IsOk(o.perInput[k].sig))), "perInput")
       \cup All(DOMAIN o.perOutput, LAMBDA k : ~ Panicked(o.perOutput[k]), "perOutput: panics") ELSE {} }

\* C11 as far as it concerns checks
CacheCheckFails(c, o) ==
  UNION { IF None(Get(o, "wsPre")) \/ Eq(o.ws, o.wsPre) THEN {} ELSE {"ws differs with a cache"},
          IF None(Get(o, "sigPre")) \/ None(Get(o, "sig")) \/ Eq(o.sig, o.sigPre) THEN {} ELSE {"sig differs with a cache"},
          IF None(Get(o, "fullPre")) \/ None(Get(o, "full")) \/ Eq(o.full, o.fullPre) THEN {} ELSE {"full differs with a cache"},
          IF IsOk(Get(o, "basic")) => Eq(o.basic.cached, TRUE) /\ Eq(o.basic.id, TxId(c.tx)) THEN {} ELSE {"checked transaction without an up-to-date cache"} }

CheckFails(c, o) ==
  CASE Prop \in RuleProps -> IF Applies(c.tx) THEN RuleFails(c, o) ELSE {}
    [] Prop = "C05" -> LedgerFails(c, o)
    [] Prop = "C06" -> CheckFeeFails(c, o)
    [] Prop = "C07" -> AuthFails(c, o)
    [] Prop = "C11" -> CacheCheckFails(c, o)
    [] Prop = "C12" -> StageFails(c, o)
    [] Prop = "C26" -> PureFails(c, o)
    [] OTHER -> {}

(******************************** identity **********************************)
IdentFails(c, o) == LET id == TxId(c.tx) IN
  Chk({"C10"}, Eq(o.id, id), "id is not the hash of the signed content")
  \cup Chk({"C10"}, Eq(o.idVar, id), "the variant's id differs")
  \cup Chk({"C10", "C11"}, Eq(o.idPre, o.id), "the cached id differs")
  \cup Chk({"C10"}, Eq(o.idAgain, o.id) /\ Eq(o.after, c.tx), "taking the id changes something")
IdPairFails(c, o) ==
  LET same == Eq(Canon(c.a), Canon(c.b))
      ids == {o.a, o.b, o.pa, o.pb} IN
  IF same THEN Chk({"C09", "C10"}, Eq(o.a, o.b) /\ Eq(o.a, o.pa) /\ Eq(o.a, o.pb), "equal signed content, different ids")
  ELSE Chk({"C10"}, o.a \notin {o.b, o.pb} /\ o.pa \notin {o.b, o.pb}, "different signed content, equal ids")
       \cup Chk({"C10", "C11"}, Eq(o.a, o.pa) /\ Eq(o.b, o.pb), "the cached id differs")

(********************************* codec ************************************)
\* what decoding gives back; a value that is given back exactly also counts for the
\* empty-predicate case (the statement allows, but does not require, the signed kind)
BackOk(ty, v, got) == Eq(got, NormOf(ty, v)) \/ Eq(got, v)
OneCodec(ty, v, o) ==
  LET e == EncOf(ty, v)  n == SizeOf(ty, v) IN
  UNION { IF Eq(o.size, n) THEN {} ELSE {"size"},
          IF Eq(o.bytes, e) THEN {} ELSE {"bytes"},
          IF Eq(o.after, v) THEN {} ELSE {"encoding changed the value"},
          IF IsOk(o.back) THEN IF BackOk(ty, v, o.back.v) THEN {} ELSE {"decodes to another value"} ELSE {"does not decode"},
          IF IsOk(o.trail) THEN IF BackOk(ty, v, o.trail.v) /\ Eq(o.trail.n, n) THEN {} ELSE {"decoding with trailing bytes"} ELSE {"does not decode with trailing bytes"},
          \* what the target held before leaves no trace
          IF \A k \in DOMAIN o.over : IsOk(o.over[k]) /\ BackOk(ty, v, o.over[k].v) /\ Eq(o.over[k].n, n) /\ Eq(o.over[k].re, EncOf(ty, o.over[k].v)) THEN {} ELSE {"decoding over another value"},
          IF \A k \in DOMAIN o.small : o.small[k] = "err" THEN {} ELSE {"small buffer"},
          IF Has(o, "dirty") THEN IF IsOk(o.dirty) /\ Eq(o.dirty.n, n) /\ Eq(o.dirty.bytes, e) /\ Eq(o.dirty.rest, Rep("cd", 16)) THEN {} ELSE {"larger buffer"} ELSE {} }
\* what was decoded carries no cache, and answers with the id of what it now is
OverFails(o) ==
  UNION { IF ~ IsOk(x) THEN {}
          ELSE UNION { IF Eq(x.also.comp, FALSE) THEN {} ELSE {"a decoded transaction carries a cache"},
                       IF Eq(x.also.id, TxId(x.v)) THEN {} ELSE {"a decoded transaction answers with another id"} } : x \in Range(o.over) }
CodecFails(c, o) ==
  IF Prop = "C11" THEN IF c.ty = "tx" THEN OverFails(o) \cup OverFails(o.var) ELSE {}
  ELSE IF Prop # "C15" THEN {}
  ELSE OneCodec(c.ty, c.v, o) \cup (IF Has(o, "var") THEN { "variant: " \o m : m \in OneCodec(c.ty, c.v, o.var) } ELSE {})

AllocBound(n) == 8192 + 64 * n
\* the first word says what follows
KindWords(ty) == CASE ty = "tx" -> {W(0), W(1), W(2)} [] ty = "script" -> {W(0)} [] ty = "create" -> {W(1)} [] ty = "mint" -> {W(2)}
                   [] ty = "input" -> {W(n) : n \in 0..2} [] ty = "output" -> {W(n) : n \in 0..5}
KindOk(ty, b) == (ty \in {"tx", "script", "create", "mint", "input", "output"} /\ ByteLen(b) >= 8) => Bytes(b, 0, 8) \in KindWords(ty)
\* where an encoding holds a transaction pointer at a fixed place (-1: nowhere), and whether that is out of range
PtrPlace(ty, b) ==
  CASE ty = "ptr" -> 0
    [] ty \in {"tx", "mint"} /\ Bytes(b, 0, 8) = W(2) -> 8
    [] ty = "input" /\ Bytes(b, 0, 8) = W(0) -> 8 + 40 + 32 + 8 + 32
    [] ty = "input" /\ Bytes(b, 0, 8) = W(1) -> 8 + 40 + 32 + 32
    [] OTHER -> -1
PtrOut(ty, b) == /\ ByteLen(b) >= 16
                 /\ LET p == PtrPlace(ty, b) IN /\ p >= 0 /\ ByteLen(b) >= p + 16
                                                /\ (Bytes(b, p, 4) # Rep("00", 4) \/ Bytes(b, p + 8, 6) # Rep("00", 6))
DecodeFails(c, o) ==
  IF Prop # "C16" THEN {}
  ELSE LET d == DecOf(c.ty, c.bytes)  n == ByteLen(c.bytes) IN
  UNION {
    IF Panicked(o) \/ Panicked(o.fb) \/ (Has(o, "tfb") /\ Panicked(o.tfb)) THEN {"panics"} ELSE {},
    IF o.alloc <= AllocBound(n) THEN {} ELSE {"allocates out of proportion"},
    \* a strict prefix of a valid encoding (the generator says of which)
    IF Has(c, "full") /\ n < ByteLen(c.full) /\ ~ (IsErr(o) /\ IsErr(o.fb)) /\ StartsWith(c.full, c.bytes)
       THEN LET f == DecOf(c.ty, c.full) IN IF f.r = "ok" /\ f.p = ByteLen(c.full) THEN {"a strict prefix decodes"} ELSE {} ELSE {},
    IF KindOk(c.ty, c.bytes) \/ (IsErr(o) /\ IsErr(o.fb)) THEN {} ELSE {"something of another kind is decoded"},
    IF ~ PtrOut(c.ty, c.bytes) \/ (IsErr(o) /\ IsErr(o.fb)) THEN {} ELSE {"a pointer out of range is decoded"},
    \* canonical encodings are decoded to what they encode
    IF d.r = "ok" THEN IF IsOk(o) /\ Eq(o.v, d.v) /\ Eq(o.n, d.p) THEN {} ELSE {"a canonical encoding is not decoded to its value"} ELSE {},
    IF IsOk(o) THEN
       UNION { IF Panicked(o.back) THEN {"encoding what was decoded panics"}
               ELSE IF IsOk(o.back) /\ BackOk(c.ty, o.v, o.back.v) THEN {} ELSE {"what was decoded does not survive encoding"},
               IF IsOk(o.fb) /\ Eq(o.fb.v, o.v) THEN {} ELSE {"from_bytes differs"},
               IF Has(o, "tfb") => IsOk(o.tfb) /\ Eq(o.tfb.v, o.v) THEN {} ELSE {"try_from_bytes differs"} }
    ELSE {} }

OffsetFails(c, o) ==
  LET spec == Offsets(c.tx)
      ins == [k \in DOMAIN InputsOf(c.tx) |-> [pred |-> PredicateOff(InputsOf(c.tx)[k]), pdata |-> PDataOff(InputsOf(c.tx)[k])]] IN
  Chk({"C17"}, Eq(o.bare, spec), "offsets")
  \cup Chk({"C17"}, Eq(o.pre, spec), "offsets with a cache")
  \cup Chk({"C11"}, Eq(o.pre, o.bare), "offsets with and without a cache differ")
  \cup Chk({"C17"}, Eq(o.ins, ins), "predicate offsets inside inputs")
  \cup Chk({"C11"}, Eq(o.bytesPre, o.bytes) /\ Eq(o.sizePre, o.size), "a cache affects the encoding")
  \cup Chk({"C06", "C11"}, Eq(o.metered, o.meteredPre), "metered bytes with and without a cache differ")
  \cup Chk({"C06"}, c.tx.k = "mint" \/ Eq(o.metered, Metered(c.tx)), "metered bytes")

(********************************** fees ************************************)
FeeFails(c, o) ==
  IF Prop # "C06" THEN {}
  ELSE UNION {
    IF ~ Has(c, "bytes") THEN {}
    ELSE LET f == FeeOf(c.params, c.bytes, c.limit, c.price)
             r == Refund(c.params, c.limit, c.price) IN
      UNION { IF Panicked(o.fee) THEN {"fee panics"}
              ELSE IF f.r = "none" THEN (IF Eq(o.fee.r, "none") THEN {} ELSE {"a fee that does not fit"})
              ELSE IF ~ IsOk(o.fee) THEN {"no fee although it fits"}
              ELSE IF /\ \A n \in {"min", "total", "minGas", "maxGas"} : Eq(Get(o.fee, n), f[n])
                      /\ Eq(o.fee.inner, <<f.min, f.total>>) /\ Eq(o.fee.word, f.total)
                      /\ Eq(o.fee.deduct, IF NLt(c.balance, f.total) THEN "none" ELSE NSub(c.balance, f.total)) THEN {} ELSE {"fee"},
              IF Panicked(o.refund) THEN {"refund panics"} ELSE IF Eq(o.refund, r) THEN {} ELSE {"refund"} },
    IF ~ Has(c, "tx") THEN {}
    ELSE LET f == TxFee(c.tx, c.params) IN
      UNION { IF Eq(o.metered, Metered(c.tx)) /\ Eq(o.meteredPre, Metered(c.tx)) THEN {} ELSE {"metered bytes"},
              IF Panicked(o.txfee) THEN {"fee of a transaction panics"}
              ELSE IF f.r = "none" THEN (IF Eq(o.txfee.r, "none") THEN {} ELSE {"a fee of a transaction that does not fit"})
              ELSE IF IsOk(o.txfee) /\ \A n \in {"min", "total", "minGas", "maxGas"} : Eq(Get(o.txfee, n), f[n]) THEN {} ELSE {"fee of a transaction"} } }

(******************************* preparation ********************************)
PrepFails(c, o) ==
  LET s == PrepScript(c.tx)  p == PrepPred(c.tx)  ins == c.tx.inputs  outs == c.tx.outputs IN
  Chk({"C20"}, Eq(o.script, s), "script preparation")
  \cup Chk({"C20"}, Eq(o.predicate, p), "predicate preparation")
  \cup Chk({"C20"}, Eq(o.scriptTwice, s) /\ Eq(o.predicateTwice, p), "preparation is not idempotent")
  \cup Chk({"C20"}, Eq(o.both, PrepScript(p)), "both preparations")
  \cup Chk({"C20"}, Eq(o.ins, [k \in DOMAIN ins |-> PrepPredIn(ins[k])]) /\ Eq(o.outs, [k \in DOMAIN outs |-> PrepPredOut(outs[k])])
                    /\ Eq(o.outsScript, [k \in DOMAIN outs |-> PrepScriptOut(outs[k])]), "preparation of single items")
  \cup Chk({"C09"}, Eq(o.scriptId, o.id) /\ Eq(o.predicateId, o.id), "preparation changes the id")

(****************************** contracts etc. ******************************)
\* ways of making a contract from bytes and of getting at them
WaysOk(c, o) == /\ \A k \in 1..4 : Eq(o.ways[k], c.code)
                /\ Eq(o.ways[5], CodeRoot(c.code))
                /\ LET f == Rep("47", ByteLen(c.code)) IN Eq(o.filled, <<f, CodeRoot(f)>>)

ContractFails(c, o) ==
  LET root == CodeRoot(c.code)  sroot == StateRoot(c.slots) IN
  Chk({"C19"}, Eq(o.code, c.code), "contract bytes")
  \cup Chk({"C19"}, WaysOk(c, o), "forms of a contract")
  \cup Chk({"C19"}, Eq(o.root, root) /\ Eq(o.root2, root), "code root")
  \cup Chk({"C19"}, DistinctKeys(c.slots) => Eq(o.sroot, sroot), "state root")
  \cup Chk({"C19"}, DistinctKeys(c.slots) => Eq(o.srootRev, o.sroot), "the state root depends on the order")
  \cup Chk({"C19"}, Eq(o.droot, StateRoot(<<>>)), "default state root")
  \cup Chk({"C19"}, Eq(o.id, ContractId(c.salt, o.root, o.sroot)), "contract id")
  \cup (IF ~ Has(c, "tx") THEN {}
        ELSE IF c.tx.k # "create" THEN Chk({"C19"}, IsErr(o.fromEnum), "a contract taken from a transaction that creates none")
        ELSE Chk({"C19"}, Eq(o.fromEnum, o.from), "contract taken from the transaction enum")
        \cup Chk({"C19"}, IF c.tx.bwi < Len(c.tx.wits) THEN IsOk(o.from) /\ Eq(o.from.code, c.tx.wits[c.tx.bwi + 1]) ELSE IsErr(o.from),
                 "contract taken from a create transaction"))

OrderFails(c, o) ==
  LET n == Len(c.slots) IN
  Chk({"C14"}, Eq(o.sorted, SortSlots(c.slots)), "sorted slots")
  \cup Chk({"C14"}, \A j \in 1..n, k \in 1..n : LET x == o.cmp[(j - 1) * n + k]  d == SlotCmp(c.slots[j], c.slots[k]) IN
                       Eq(x, <<d, d, c.slots[j] = c.slots[k]>>), "comparison of slots")

\* very many equal items
BulkFails(c, o) ==
  LET off(l) == BulkOff(c.tx, c.list, c.item, c.n, l)
      size == off("end")
      sha == Sha256(BulkEnc(c.tx, c.list, c.item, c.n))
      heads == IF c.tx.k = "mint" THEN [outputs |-> off("outputs")] ELSE [inputs |-> off("inputs"), outputs |-> off("outputs"), witnesses |-> off("wits")]
  IN Chk({"C15"}, Eq(o.size, size) /\ Eq(o.len, size), "size")
     \cup (IF Prop # "C15" THEN {} ELSE
           UNION { IF Eq(o.sha, sha) THEN {} ELSE {"bytes"},
                   IF IsOk(o.back) /\ Eq(o.back.n, size) /\ Eq(o.back.same, TRUE) /\ Eq(o.back.sha, sha) THEN {} ELSE {"decodes to another value"} })
     \cup Chk({"C10"}, Prop = "C10" => Eq(o.id, BulkId(c.tx, c.list, c.item, c.n)), "id is not the hash of the signed content")
     \cup Chk({"C17"}, \A k \in DOMAIN o.at : o.at[k][2] = BulkAt(c.tx, c.list, c.item, c.n, o.at[k][1]), "offsets")
     \cup Chk({"C17"}, Eq(o.heads, heads), "offsets of the lists")
     \cup Chk({"C06"}, c.tx.k = "mint" \/ Eq(o.metered, off("wits")), "metered bytes")
     \cup (IF Prop # "C01" \/ ~ Has(o, "ws") \/ c.tx.k = "mint" THEN {}
           ELSE IF VerdictFor(o.ws, Violations(Bulk(c.tx, c.list, c.item, c.n), ZeroW, c.params), LimitErrors) THEN {} ELSE {"ws: verdict contradicts the rules"})

DeriveFails(c, o) ==
  LET n == MessageNonce(c.txid, c.idx) IN
  Chk({"C22"}, Eq(o.mid, MessageId(c.sender, c.recipient, c.nonce, c.amount, c.data)), "id of a message input")
  \cup Chk({"C22"}, Eq(o.omid, MessageId(c.sender, c.recipient, c.nonce32, c.amount, c.data)), "id of an output message")
  \cup Chk({"C22"}, Eq(o.ononce, n), "nonce of an output message")
  \cup Chk({"C22"}, Eq(o.rmid, MessageId(c.sender, c.recipient, n, c.amount, c.data)), "id in a message receipt")
  \cup Chk({"C22"}, Eq(o.rnonce, n), "nonce in a message receipt")
  \cup Chk({"C22"}, Eq(o.powner, PredicateOwner(c.pred)), "predicate address")
  \cup Chk({"C22"}, Eq(o.pvalid, Eq(o.powner, PredicateOwner(c.pred))) /\ Eq(o.pother, c.owner = PredicateOwner(c.pred)), "predicate owner test")
  \cup Chk({"C18"}, Eq(o.digest, Sha256(c.data)) /\ Eq(o.rdigest, Sha256(c.data)), "message digest")
  \cup Chk({"C07"}, Eq(o.keyowner, KeyOwner(o.pk)), "address of a key")

(********************************** views ***********************************)
SetSeqOk(s, S) == Range(s) = S /\ Len(s) = Cardinality(S)
ViewFails(c, o) ==
  LET ins == c.tx.inputs IN
  Chk({"C25"}, Eq(o.assets, InputAssetSeq(ins)), "input assets")
  \cup Chk({"C25"}, SetSeqOk(o.unique, InputAssets(ins)), "unique input assets")
  \cup Chk({"C25"}, SetSeqOk(o.contracts, ContractIds(ins)), "input contracts")
  \cup Chk({"C25"}, Eq(o.predOwners, \A k \in DOMAIN ins : ins[k].t \in PredicateKinds => OwnerOf(ins[k]) = PredicateOwner(ins[k].pred)), "predicate owners")

OrNone(v, f) == IF Has(v, f) THEN v[f] ELSE "none"
LenOr(v, f) == IF Has(v, f) THEN ByteLen(v[f]) ELSE -1
\* the accessors of an input; predicate lengths of kinds without a predicate are 0
InAcc(i) ==
  [ repr |-> InputRepr(i), repr2 |-> InputRepr(i), utxo |-> OrNone(i, "utxo"),
    owner |-> IF i.t \in CoinKinds THEN i.owner ELSE "none",
    asset |-> IF i.t = "contract" THEN "none" ELSE InputAsset(i), cid |-> OrNone(i, "cid"), amount |-> OrNone(i, "amount"),
    wix |-> IF i.t \in SignedKinds THEN i.wix ELSE -1, maturity |-> OrNone(i, "maturity"),
    predOff |-> PredicateOff(i), pdataOff |-> PDataOff(i),
    mid |-> OrNone(i, "mid"), ptr |-> OrNone(i, "ptr"), data |-> OrNone(i, "data"),
    pred |-> OrNone(i, "pred"), pdata |-> OrNone(i, "pdata"), both |-> IF i.t \in PredicateKinds THEN <<i.pred, i.pdata>> ELSE <<>>,
    broot |-> OrNone(i, "broot"), sroot |-> OrNone(i, "sroot"), sender |-> OrNone(i, "sender"), recipient |-> OrNone(i, "recipient"),
    nonce |-> OrNone(i, "nonce"),
    is |-> [coin |-> i.t \in CoinKinds, coinSigned |-> i.t = "coinSigned", coinPredicate |-> i.t = "coinPredicate",
            message |-> i.t \in MessageKinds, messageSigned |-> i.t = "messageSigned", messagePredicate |-> i.t = "messagePredicate",
            contract |-> i.t = "contract"] ]
OutAcc(x) ==
  [ repr |-> OutputRepr(x), repr2 |-> OutputRepr(x), asset |-> OrNone(x, "asset"), to |-> OrNone(x, "to"), amount |-> OrNone(x, "amount"),
    inix |-> IF x.t = "contract" THEN x.inix ELSE -1, broot |-> OrNone(x, "broot"), sroot |-> OrNone(x, "sroot"),
    cid |-> OrNone(x, "cid"), recipient |-> OrNone(x, "recipient"),
    is |-> [coin |-> x.t = "coin", message |-> x.t = "message", variable |-> x.t = "variable", contract |-> x.t = "contract", created |-> x.t = "created"] ]
WitAcc(w) == [vec |-> w, ref |-> w, slice |-> w, inner |-> w, filled |-> Rep("47", ByteLen(w)), pushed |-> w \o "99", extended |-> w \o w, same |-> TRUE, after |-> w]
\* what the constructors make: no receipts yet, and as many instructions as the bytecode has
Made(t) == CASE t.k = "script" -> [t EXCEPT !.rroot = Zero32]
             [] t.k = "create" -> [t EXCEPT !.bcl = IF t.bwi < Len(t.wits) THEN W(ByteLen(t.wits[t.bwi + 1]) \div 4) ELSE ZeroW]
             [] OTHER -> t
AccessFails(c, o) ==
  IF Prop # "C28" THEN {}
  ELSE LET want == CASE c.ty = "input" -> InAcc(c.v) [] c.ty = "output" -> OutAcc(c.v)
                     [] c.ty = "witness" -> WitAcc(c.v)
                     [] c.ty = "slot" -> [key |-> c.v.k, value |-> c.v.v, flat |-> c.v.k \o c.v.v, back |-> c.v, same |-> TRUE]
                     [] c.ty = "tx" -> [script |-> c.v.k = "script", create |-> c.v.k = "create", mint |-> c.v.k = "mint",
                                        asScript |-> IF c.v.k = "script" THEN c.v ELSE "none", asCreate |-> IF c.v.k = "create" THEN c.v ELSE "none",
                                        asMint |-> IF c.v.k = "mint" THEN c.v ELSE "none", made |-> Made(c.v), set |-> c.v, repr |-> TxRepr(c.v), reprs |-> <<0, 1, 2, -1>>, mut |-> <<c.v.k = "script", c.v.k = "create", c.v.k = "mint">>]
       IN { f \o ": accessor" : f \in { g \in DOMAIN want : ~ Eq(Get(o, g), want[g]) } }
          \cup (IF c.ty = "tx" /\ ~ Eq(c.given, c.v) THEN {"constructor"} ELSE {})
          \cup (IF c.ty \in {"input", "output"} THEN IF Eq(o.built, c.v) THEN {} ELSE {"constructor"} ELSE {})
          \cup (IF c.ty # "input" THEN {}
                ELSE IF c.v.t \in PredicateKinds
                     THEN IF Eq(o.predLen, ByteLen(c.v.pred)) /\ Eq(o.pdataLen, ByteLen(c.v.pdata)) THEN {} ELSE {"predicate lengths"}
                     ELSE IF o.predLen \in {0, -1} /\ o.pdataLen \in {0, -1} THEN {} ELSE {"predicate lengths"})
ReprFails(o) ==
  Chk({"C17"}, Eq(o.input, InputReprOffsets), "offsets inside inputs")
  \cup Chk({"C17"}, Eq(o.output, OutputReprOffsets), "offsets inside outputs")
  \cup Chk({"C17"}, Eq(o.coinPredicateOffset, 168) /\ Eq(o.messageDataOffset, 152) /\ Eq(o.utxoLen, 40) /\ Eq(o.ptrLen, 16) /\ Eq(o.slotLen, 64), "fixed lengths")

(********************************** text ************************************)
\* the upper-case alternate form prints its prefix as the lower-case one does
Shown(o, s) == Eq(o.s, s)
TextFails(c, o) ==
  IF Prop # "C21" THEN {}
  ELSE LET u == ParseUtxo(c.chars)  p == ParsePtr(c.chars)
           one(n, want) == LET g == Get(o, n) IN
             IF Panicked(g) THEN {n \o ": panics"}
             ELSE IF want.r = "ok" THEN IF IsOk(g) /\ Eq(g.v, want.v) THEN {} ELSE {n \o ": not parsed to its value"}
             ELSE IF IsErr(g) THEN {} ELSE {n \o ": malformed text accepted"}
       IN one("utxo", u) \cup one("ptr", p) \cup (IF Panicked(o.json) THEN {"json: panics"} ELSE {})
FormatFails(c, o) ==
  IF Prop # "C21" THEN {}
  ELSE LET u == UtxoDigits(c.utxo)  p == PtrDigits(c.ptr) IN
  UNION { IF Eq(o.ul.s, u) THEN {} ELSE {"lower-case utxo id"}, IF Eq(o.uu.s, UpperOf(u)) THEN {} ELSE {"upper-case utxo id"},
          IF Eq(o.ual.s, "0x" \o u) THEN {} ELSE {"prefixed utxo id"},
          IF Eq(o.uau.s, "0x" \o UpperOf(u)) THEN {} ELSE {"prefixed upper-case utxo id"},
          IF \A n \in {"ul", "uu", "ual", "uau"} : Eq(Get(o, n).back, c.utxo) THEN {} ELSE {"utxo id does not parse back"},
          IF Eq(o.pl.s, p) /\ Eq(o.pu.s, UpperOf(p)) THEN {} ELSE {"pointer text"},
          IF Eq(o.pl.back, c.ptr) /\ Eq(o.pu.back, c.ptr) THEN {} ELSE {"pointer does not parse back"},
          IF Eq(o.uget, c.utxo) /\ Eq(o.pget, c.ptr) /\ Eq(o.unew, c.utxo) THEN {} ELSE {"parts"},
          IF Eq(o.urep, [c.utxo EXCEPT !.id = Rep("07", 32)]) THEN {} ELSE {"replaced id"},
          IF Eq(o.ju, c.utxo) /\ Eq(o.jp, c.ptr) THEN {} ELSE {"JSON form"} }
JsonFails(c, o) ==
  Chk({"C21"}, Eq(o.back, c.tx) /\ Eq(o.eq, TRUE), "JSON does not parse back")
  \cup Chk({"C21"}, Eq(o.parsed, TRUE) /\ Eq(o.cut, TRUE), "JSON shape")
  \cup Chk({"C11"}, Eq(o.cached, FALSE), "parsed transaction has a cache")
  \cup Chk({"C11"}, Eq(o.samePre, TRUE), "a cache affects the JSON form")
  \cup Chk({"C11"}, Eq(o.eqPre, TRUE) /\ Eq(o.hashPre, TRUE), "a cache affects equality or hashing")

\* C29
RelFails(r, same, where) ==
  UNION { IF Eq(r.eq, same) /\ Eq(r.ne, ~ same) /\ Eq(r.rev, same) THEN {} ELSE {where \o "equality does not follow the content"},
          IF Eq(r.self, TRUE) /\ Eq(r.selfHash, TRUE) THEN {} ELSE {where \o "a value differs from its copy"},
          IF same => Eq(r.hash, TRUE) THEN {} ELSE {where \o "equal values hash differently"} }
RelateFails(c, o) ==
  IF Prop # "C29" THEN {}
  ELSE IF c.ty = "checked"
  THEN IF Has(o, "none") THEN {}
       ELSE RelFails(o, Eq(o.a, o.b), "") \cup RelFails(o.enum, Eq(o.a, o.b), "enum: ") \cup RelFails(o.meta, Eq(o.a.meta, o.b.meta), "metadata: ")
  ELSE LET same == Same(c.ty, c.a, c.b) IN
       RelFails(o, same, "")
       \cup (IF c.ty # "tx" THEN {}
             ELSE UNION { IF \A k \in DOMAIN o.pre : Eq(o.pre[k], same) THEN {} ELSE {"equality with a cache"},
                          IF \A k \in DOMAIN o.preHash : Eq(o.preHash[k], TRUE) THEN {} ELSE {"hash with a cache"},
                          IF Eq(o.var, "none") THEN {} ELSE RelFails(o.var, same, "variant: ") })
       \cup (IF c.ty \notin Ordered THEN {}
             ELSE LET d == IF c.ty = "fee" THEN o.cmp[1] ELSE Compare(c.ty, c.a, c.b) IN
                  UNION { IF Eq(o.cmp, <<d, d, d>>) /\ ((d = 0) <=> same) THEN {} ELSE {"comparison"},
                          IF Eq(o.lt, <<d < 0, d <= 0, d > 0, d >= 0>>) THEN {} ELSE {"comparison operators"} })

\* C21: every serialized form gives the value back
FormsOk(o, want) == \A n \in {"text", "pretty", "bin"} : Eq(Get(Get(o, n), "v"), want)
FormsEq(o) == \A n \in {"text", "pretty", "bin"} : Eq(Get(Get(o, n), "eq"), TRUE)
SerdeFails(c, o) ==
  LET want == IF c.ty = "receipt" THEN Built(c.v) ELSE c.v IN
  Chk({"C21"}, FormsOk(o, want) /\ FormsEq(o), "a serialized form does not give the value back")
  \cup (IF c.ty # "tx" THEN {}
        ELSE Chk({"C21"}, FormsOk(o.var, want) /\ FormsEq(o.var), "a serialized form of the variant does not give the value back")
             \cup Chk({"C11", "C21"}, FormsOk(o.pre, <<c.v, FALSE>>), "a cache is kept in, or changes, a serialized form"))

\* C12: default checked transactions
DefaultFails(o) ==
  IF Prop # "C12" THEN {}
  ELSE (IF Eq(o.checks.bits, BasicBit + SigBit) /\ Eq(o.checks.all, TRUE) /\ Eq(o.checks.rest, TRUE)
        THEN {} ELSE {"the set of checks of the default value is all checks"}) \cup
       UNION { LET d == o.each[k] IN
               LET viol == BasicViolations(d.tx, ZeroW, DefaultParams) \cup SigViolationsFor(d.tx, TxId(d.tx)) IN
               \* (there is no default value if the default transaction is not valid)
               IF Panicked(d) THEN IF viol # {} THEN {} ELSE {"no default checked transaction"}
               ELSE IF Eq(d.same, TRUE) /\ CheckedOk(d.c, d.tx, BasicBit + SigBit) /\ viol = {} /\ Eq(d.c.meta.k, d.tx.k)
               THEN {} ELSE {"default checked transaction"} : k \in DOMAIN o.each }

(******************************** parameters ********************************)
ParamFails(c, o) ==
  LET init == IF Has(c, "init") THEN c.init ELSE DefaultParams
      last == ParamRun(init, c.steps, Len(c.steps)) IN
  Chk({"C24"}, \A n \in 0..Len(c.steps) : Eq(o.tr[n + 1], ParamRun(init, c.steps, n)), "setters")
  \cup Chk({"C24"}, Eq(o.json, last), "JSON form of the parameters")
  \cup Chk({"C24"}, Eq(o.jsonEmpty, DefaultParams)
             /\ \A f \in ParamNames : (Has(o.without, f) => Eq(o.without[f], SetParam(last, f, DefaultParams[f])))
                                   /\ (Has(o.alone, f) => Eq(o.alone[f], SetParam(DefaultParams, f, last[f]))), "parameters left out of the JSON form")
  \cup Chk({"C24"}, Eq(o.default, DefaultParams) /\ Eq(o.default2, DefaultParams) /\ Eq(o.legacy, DefaultParams), "defaults")
  \cup Chk({"C17"}, o.txOffset = -1 \/ Eq(o.txOffset, TxOffset(last)), "position of the transaction in memory")

(********************************* receipts *********************************)
ReceiptFails(c, o) ==
  IF Prop # "C18" THEN {}
  ELSE LET b == Built(c.v)  a == Acc(b) IN
  UNION { IF Eq(o.v, b) THEN {} ELSE {"constructor"},
          { n \o ": accessor" : n \in { m \in AccNames : ~ Eq(Get(o.acc, m), a[m]) } },
          IF Eq(o.size, RSize(b)) THEN {} ELSE {"size"},
          IF Eq(o.bytes, REnc(b)) THEN {} ELSE {"bytes"},
          IF IsOk(o.back) /\ Eq(o.back.v, RNorm(b)) THEN {} ELSE {"decoding"},
          IF IsOk(o.back) /\ (RNorm(b) = b \/ b.t = "panic") => Eq(o.back.eq, TRUE) THEN {} ELSE {"decoding yields a different receipt"},
          IF Eq(o.used, RSize(b)) THEN {} ELSE {"bytes consumed"},
          IF \A k \in DOMAIN o.over : IsOk(o.over[k]) /\ Eq(o.over[k].v, RNorm(b)) /\ Eq(o.over[k].n, RSize(b)) THEN {} ELSE {"decoding over another receipt"},
          IF \A k \in DOMAIN o.small : o.small[k] # "panic" THEN {} ELSE {"small buffer panics"},
          IF Eq(o.eqSelf, TRUE) /\ Eq(o.hashSelf, TRUE) THEN {} ELSE {"equality"} }
RDecodeFails(c, o) ==
  IF Prop # "C16" THEN {}
  ELSE UNION { IF Panicked(o) THEN {"panics"} ELSE {},
               IF o.alloc <= AllocBound(ByteLen(c.bytes)) THEN {} ELSE {"allocates out of proportion"},
               IF ByteLen(c.bytes) < 8 \/ Bytes(c.bytes, 0, 8) \in {W(n) : n \in 0..10} \/ IsErr(o) THEN {} ELSE {"something of another kind is decoded"},
               \* (a panic's reason is an instruction result of another library, which need not keep every word)
               LET d == RDec(c.bytes, 0) IN
                   IF d.r = "ok" THEN IF IsOk(o) /\ Eq(IF d.v.t = "panic" THEN [o.v EXCEPT !.reason = d.v.reason] ELSE o.v, d.v) /\ Eq(o.n, d.p) THEN {} ELSE {"a canonical encoding is not decoded to its value"} ELSE {},
               IF IsOk(o) THEN IF IsOk(o.back) /\ Eq(o.back.v, o.v) THEN {} ELSE {"what was decoded does not survive encoding"} ELSE {} }

(********************************* builder **********************************)
BuildStart(c) == CASE c.kind = "script" -> NewScript(c.script, c.data)
                   [] c.kind = "create" -> NewCreate(c.bytecode, c.salt, c.slots)
                   [] c.kind = "mint" -> NewMint(c.h, c.i)
BuildFails(c, o) ==
  IF Prop # "C23" THEN {}
  ELSE LET start == BuildStart(c)
           b == BRun(start, c.steps, Len(c.steps))
           want == Prepared(b)
           f == o.fin
           signs == c.fin \in {"sign", "signTx", "checked", "basic"} /\ c.kind # "mint"
           sizesOk == \A n \in DOMAIN o.sizes : LET s == BRun(start, c.steps, n) IN
                        c.kind = "mint" \/ Eq(o.sizes[n], <<Len(s.tx.inputs), Len(s.tx.outputs), Len(s.tx.wits), Len(s.keyList)>>)
           \* verdict of the checked finishers
           got == IF Has(f, "tx") THEN f.tx ELSE want
           \* (a signed witness has the length of a signature)
           signed == IF want.k = "mint" THEN want
                     ELSE [want EXCEPT !.wits = [k \in DOMAIN @ |-> IF \E q \in b.keys : k \in SignPositions(want, q) THEN Rep("00", 64) ELSE @[k]]]
           viol == BasicViolations(signed, c.height, c.params)
           reject == viol # {} \/ (c.fin = "checked" /\ ~ SigWouldHold(b, want))
       IN IF Has(f, "panic")
          THEN IF c.fin \in {"checked", "basic"} /\ reject THEN {} ELSE {"finishing panics"}
          ELSE UNION {
            IF c.fin \in {"checked", "basic"} /\ reject THEN {"an invalid transaction is finished as checked"} ELSE {},
            IF sizesOk THEN {} ELSE {"content while building"},
            IF want.k = "mint" THEN (IF Eq(got, want) THEN {} ELSE {"finished mint transaction"})
            ELSE UNION { IF Eq([got EXCEPT !.wits = <<>>], [want EXCEPT !.wits = <<>>]) THEN {} ELSE {"finished transaction"},
                         IF signs THEN (IF AllSigned(b, want, got.wits) THEN {} ELSE {"signatures"})
                         ELSE IF Eq(got.wits, want.wits) THEN {} ELSE {"witnesses"} },
            IF Eq(f.cached, TRUE) /\ Eq(f.id, TxId(got)) THEN {} ELSE {"cache of the finished transaction"},
            IF Eq(f.offs, Offsets(got)) /\ Eq(f.metered, IF want.k = "mint" THEN 0 ELSE Metered(got)) THEN {} ELSE {"cached offsets of the finished transaction"},
            IF c.kind = "mint" \/ Eq(o.keys, b.keyList) THEN {} ELSE {"keys of the builder"},
            IF c.fin \in {"sign", "signTx"} THEN IF (want.k = "mint" \/ SigWouldHold(b, want)) => IsOk(f.sig) THEN {} ELSE {"signature check after signing"} ELSE {},
            IF c.fin = "checked" THEN IF Eq(f.checks, BasicBit + SigBit) THEN {} ELSE {"record of checks"}
            ELSE IF c.fin = "basic" THEN IF Eq(f.checks, BasicBit) THEN {} ELSE {"record of checks"} ELSE {} }

(******************************* all records ********************************)
PropsOfOp == [ check |-> {"C01", "C02", "C03", "C04", "C05", "C06", "C07", "C11", "C12", "C13", "C14", "C26"},
               ident |-> {"C10", "C11"}, idpair |-> {"C09", "C10", "C11"}, codec |-> {"C15", "C11"}, decode |-> {"C16"}, rdecode |-> {"C16"},
               offsets |-> {"C17", "C11", "C06"}, fee |-> {"C06"}, prep |-> {"C20", "C09"}, contract |-> {"C19"}, derive |-> {"C22", "C18", "C07"},
               views |-> {"C25"}, access |-> {"C28"}, reprs |-> {"C17"}, text |-> {"C21"}, format |-> {"C21"}, json |-> {"C21", "C11"},
               params |-> {"C24", "C17"}, order |-> {"C14"}, relate |-> {"C29"}, serde |-> {"C21", "C11"}, defaults |-> {"C12"}, bulk |-> {"C15", "C10", "C17", "C06", "C01"}, receipt |-> {"C18"}, build |-> {"C23"}, life |-> {"C08", "C11", "C12"}, twin |-> {"C27"} ]
\* C27: the same summary from both builds; rejections need not name the same error
TwinFails(c, o) ==
  LET same(n) == IF Panicked(Get(o.std, n)) \/ Panicked(Get(o.nostd, n)) THEN {n \o ": panics"}
                 ELSE IF Eq(Get(o.std, n), Get(o.nostd, n)) THEN {} ELSE {n \o ": differs between the two builds"}
      verd(n) == IF Panicked(Get(o.std, n)) \/ Panicked(Get(o.nostd, n)) THEN {n \o ": panics"}
                 ELSE IF IsOk(Get(o.std, n)) = IsOk(Get(o.nostd, n)) THEN {} ELSE {n \o ": verdict differs between the two builds"}
  IN IF ~ Has(o, "std") \/ ~ Has(o, "nostd") THEN {"no answer"}
     ELSE verd("ws") \cup verd("wsEnum")
          \cup UNION {same(n) : n \in {"assets", "size", "offs", "metered", "fee", "prepIns", "prepOuts", "derived", "roots"}}

Fails(rec) ==
  LET c == rec  o == rec.obs IN
  IF Prop \notin PropsOfOp[c.op] THEN {}
  ELSE IF Has(o, "panic") THEN {"panics: " \o o.panic}
  ELSE CASE c.op = "check" -> CheckFails(c, o)
         [] c.op = "ident" -> IdentFails(c, o)
         [] c.op = "idpair" -> IdPairFails(c, o)
         [] c.op = "codec" -> CodecFails(c, o)
         [] c.op = "decode" -> DecodeFails(c, o)
         [] c.op = "rdecode" -> RDecodeFails(c, o)
         [] c.op = "offsets" -> OffsetFails(c, o)
         [] c.op = "fee" -> FeeFails(c, o)
         [] c.op = "prep" -> PrepFails(c, o)
         [] c.op = "contract" -> ContractFails(c, o)
         [] c.op = "derive" -> DeriveFails(c, o)
         [] c.op = "order" -> OrderFails(c, o)
         [] c.op = "relate" -> RelateFails(c, o)
         [] c.op = "serde" -> SerdeFails(c, o)
         [] c.op = "defaults" -> DefaultFails(o)
         [] c.op = "bulk" -> BulkFails(c, o)
         [] c.op = "views" -> ViewFails(c, o)
         [] c.op = "access" -> AccessFails(c, o)
         [] c.op = "reprs" -> ReprFails(o)
         [] c.op = "text" -> TextFails(c, o)
         [] c.op = "format" -> FormatFails(c, o)
         [] c.op = "json" -> JsonFails(c, o)
         [] c.op = "params" -> ParamFails(c, o)
         [] c.op = "receipt" -> ReceiptFails(c, o)
         [] c.op = "build" -> BuildFails(c, o)
         [] c.op = "twin" -> TwinFails(c, o)

(******************************** histories *********************************)
\* a step of a recorded history: the witnesses after signing come from the observation
EvOf(ev) == IF ev.s = "sign" THEN ev @@ [w2 |-> IF Has(ev.st, "tx") THEN ev.st.tx.wits ELSE <<>>] ELSE ev
\* which steps a property has something to say about
StepProps(ev) ==
  CASE ev.s = "sign" -> {"C08"}
    [] ev.s \in {"set", "precompute", "prepScript", "prepPred", "reencode", "json", "offs"} -> {"C11"}
    [] ev.s = "clone" -> {"C11", "C12"}
    [] ev.s \in {"checkWs", "checkSig", "check"} -> {"C11", "C12"}
    [] OTHER -> {"C11", "C12"}
=============================================================================
