------------------------------ MODULE Receipts -------------------------------
(* Receipts: construction, accessors and encoding.                           *)
EXTENDS Ident

RepNames == <<"call", "return", "returnData", "panic", "revert", "log", "logData", "transfer", "transferOut", "scriptResult", "messageOut">>
ReceiptRepr(t) == CHOOSE n \in 0..10 : RepNames[n + 1] = t

\* what the constructors make of their arguments: lengths and derived message fields
\* (the length of data given without one is that of its word-padded form)
WithLen(v) == IF Has(v, "len") THEN v.len ELSE W(PadLen(ByteLen(v.data)))
Built(v) ==
  CASE v.t = "returnData" ->
         [t |-> v.t, id |-> v.id, ptr |-> v.ptr, len |-> WithLen(v), digest |-> v.digest, data |-> v.data, pc |-> v.pc, is |-> v.is]
    [] v.t = "logData" ->
         [t |-> v.t, id |-> v.id, ra |-> v.ra, rb |-> v.rb, ptr |-> v.ptr, len |-> WithLen(v), digest |-> v.digest, data |-> v.data, pc |-> v.pc, is |-> v.is]
    [] v.t = "messageOut" ->
         IF Has(v, "txid")
         THEN LET n == MessageNonce(v.txid, v.idx) IN
              [t |-> v.t, mid |-> MessageId(v.sender, v.recipient, n, v.amount, v.data), sender |-> v.sender, recipient |-> v.recipient,
               amount |-> v.amount, nonce |-> n, len |-> W(PadLen(ByteLen(v.data))), digest |-> Sha256(v.data), data |-> v.data]
         ELSE [t |-> v.t, mid |-> v.mid, sender |-> v.sender, recipient |-> v.recipient, amount |-> v.amount, nonce |-> v.nonce,
               len |-> WithLen(v), digest |-> v.digest, data |-> v.data]
    [] OTHER -> v

ResultWord(r) == CASE r.t = "success" -> W(0) [] r.t = "revert" -> W(1) [] r.t = "panic" -> W(2) [] r.t = "generic" -> r.c
ResultOf(w) == CASE w = W(0) -> [t |-> "success"] [] w = W(1) -> [t |-> "revert"] [] w = W(2) -> [t |-> "panic"] [] OTHER -> [t |-> "generic", c |-> w]

VarData(d) == LenW(d) \o Pad(d)
\* The encoding: the words of the fields in order.
RFields(v) ==
  << F("repr", W(ReceiptRepr(v.t))) >> \o
  CASE v.t = "call" -> << F("id", v.id), F("to", v.to), F("amount", v.amount), F("asset", v.asset), F("gas", v.gas),
                          F("param1", v.param1), F("param2", v.param2), F("pc", v.pc), F("is", v.is) >>
    [] v.t = "return" -> << F("id", v.id), F("val", v.val), F("pc", v.pc), F("is", v.is) >>
    [] v.t = "returnData" -> << F("id", v.id), F("ptr", v.ptr), F("len", v.len), F("digest", v.digest), F("data", VarData(v.data)), F("pc", v.pc), F("is", v.is) >>
    [] v.t = "panic" -> << F("id", v.id), F("reason", v.reason), F("pc", v.pc), F("is", v.is) >>
    [] v.t = "revert" -> << F("id", v.id), F("ra", v.ra), F("pc", v.pc), F("is", v.is) >>
    [] v.t = "log" -> << F("id", v.id), F("ra", v.ra), F("rb", v.rb), F("rc", v.rc), F("rd", v.rd), F("pc", v.pc), F("is", v.is) >>
    [] v.t = "logData" -> << F("id", v.id), F("ra", v.ra), F("rb", v.rb), F("ptr", v.ptr), F("len", v.len), F("digest", v.digest), F("data", VarData(v.data)), F("pc", v.pc), F("is", v.is) >>
    [] v.t = "transfer" -> << F("id", v.id), F("to", v.to), F("amount", v.amount), F("asset", v.asset), F("pc", v.pc), F("is", v.is) >>
    [] v.t = "transferOut" -> << F("id", v.id), F("to", v.to), F("amount", v.amount), F("asset", v.asset), F("pc", v.pc), F("is", v.is) >>
    [] v.t = "scriptResult" -> << F("result", ResultWord(v.result)), F("gasUsed", v.gasUsed) >>
    [] v.t = "messageOut" -> << F("mid", v.mid), F("sender", v.sender), F("recipient", v.recipient), F("amount", v.amount), F("nonce", v.nonce),
                                F("len", v.len), F("digest", v.digest), F("data", VarData(v.data)) >>
RMain(v) == EncF(RFields(v))
\* Deliberate deviation: the implementation sizes scriptResult and messageOut as if they had the
\* id, pc and is words of the other kinds, so their encodings end in 48 unused bytes.
RTail(v) == IF v.t \in {"scriptResult", "messageOut"} THEN 48 ELSE 0
REnc(v) == RMain(v) \o Zeros(RTail(v))
RSize(v) == ByteLen(RMain(v)) + RTail(v)
\* what the encoding stands for
RNorm(v) == CASE v.t = "panic" -> [v EXCEPT !.pcid = "none"]
              [] v.t = "scriptResult" -> [v EXCEPT !.result = ResultOf(ResultWord(v.result))]
              [] OTHER -> v

(******************************** decoding **********************************)
\* Written independently of RFields: layouts as kinds of the parts that follow the repr word
\* ("b" 32 bytes, "w" a word, "d" length and padded data, "r" a result word, "z" 48 unused bytes).
Layout ==
  << <<"b:id", "b:to", "w:amount", "b:asset", "w:gas", "w:param1", "w:param2", "w:pc", "w:is">>,
     <<"b:id", "w:val", "w:pc", "w:is">>,
     <<"b:id", "w:ptr", "w:len", "b:digest", "d:data", "w:pc", "w:is">>,
     <<"b:id", "w:reason", "w:pc", "w:is">>,
     <<"b:id", "w:ra", "w:pc", "w:is">>,
     <<"b:id", "w:ra", "w:rb", "w:rc", "w:rd", "w:pc", "w:is">>,
     <<"b:id", "w:ra", "w:rb", "w:ptr", "w:len", "b:digest", "d:data", "w:pc", "w:is">>,
     <<"b:id", "b:to", "w:amount", "b:asset", "w:pc", "w:is">>,
     <<"b:id", "b:to", "w:amount", "b:asset", "w:pc", "w:is">>,
     <<"r:result", "w:gasUsed", "z:z">>,
     <<"b:mid", "b:sender", "b:recipient", "w:amount", "b:nonce", "w:len", "b:digest", "d:data", "z:z">> >>
RECURSIVE RDecParts(_, _, _, _)
RDecParts(b, p, parts, acc) ==
  IF parts = <<>> THEN DOk(acc, p)
  ELSE LET kind == SubSeq(parts[1], 1, 1)  name == SubSeq(parts[1], 3, Len(parts[1]))
           x == CASE kind = "b" -> RdB(b, p, 32)
                  [] kind = "w" -> RdB(b, p, 8)
                  [] kind = "r" -> RdB(b, p, 8)
                  [] kind = "d" -> LET n == RdLen(b, p) IN IF n.r # "ok" THEN DErr ELSE RdRaw(b, p + 8, n.v)
                  [] kind = "z" -> IF Avail(b, p, 48) /\ Bytes(b, p, 48) = Zeros(48) THEN DOk("", p + 48) ELSE DErr
       IN IF x.r # "ok" THEN DErr
          ELSE RDecParts(b, x.p, Tail(parts), IF kind = "z" THEN acc ELSE IF kind = "r" THEN (name :> ResultOf(x.v)) @@ acc ELSE (name :> x.v) @@ acc)
RDec(b, p) ==
  LET t == RdU8(b, p) IN
  IF t.r # "ok" \/ t.v > 10 THEN DErr
  ELSE RDecParts(b, p + 8, Layout[t.v + 1], IF t.v = 3 THEN [t |-> "panic", pcid |-> "none"] ELSE [t |-> RepNames[t.v + 1]])

\* every accessor, for every kind: the field if the kind has it, "none" otherwise
AccNames == {"id", "pc", "is", "to", "toAddress", "amount", "asset", "gas", "param1", "param2", "val", "ptr", "len", "digest", "data",
             "reason", "ra", "rb", "rc", "rd", "result", "gasUsed", "mid", "sender", "recipient", "nonce", "pcid", "empty"}
Acc(v) ==
  [n \in AccNames |->
     CASE n = "toAddress" -> IF v.t = "transferOut" THEN v.to ELSE "none"
       [] n = "to" -> IF v.t \in {"call", "transfer"} THEN v.to ELSE "none"
       [] n = "empty" -> IF Has(v, "len") THEN (IF v.len = ZeroW THEN "true" ELSE "false") ELSE "none"
       [] OTHER -> IF Has(v, n) THEN v[n] ELSE "none"]
=============================================================================
