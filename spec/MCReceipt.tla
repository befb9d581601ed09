------------------------------- MODULE MCReceipt -----------------------------
(* Bounded model of receipts (C18, receipts of C16): every kind, each field   *)
(* empty, equal to its neighbours, or distinct; data of all paddings; then    *)
(* (focus "decode") the encoding is damaged.                                  *)
EXTENDS Receipts, Json

CONSTANTS Focus, Rich, CaseFile
VARIABLES v, b, pc
vars == <<v, b, pc>>

Names == << <<"id", "to", "amount", "asset", "gas", "param1", "param2", "pc", "is">>, <<"id", "val", "pc", "is">>,
            <<"id", "ptr", "digest", "pc", "is">>, <<"id", "reason", "pc", "is">>, <<"id", "ra", "pc", "is">>, <<"id", "ra", "rb", "rc", "rd", "pc", "is">>,
            <<"id", "ra", "rb", "ptr", "digest", "pc", "is">>, <<"id", "to", "amount", "asset", "pc", "is">>, <<"id", "to", "amount", "asset", "pc", "is">>,
            <<"gasUsed">>, <<"sender", "recipient", "amount">> >>
Wide == {"id", "to", "asset", "digest", "sender", "recipient", "mid", "nonce", "txid", "pcid"}
\* value number x of a field: 0 zero, 1 all ones, others distinct
Val(f, x) == CASE f = "reason" -> (CASE x = 0 -> ZeroW [] x = 1 -> "0b00000000000000" [] OTHER -> "0" \o DigitOf(x) \o "50400040000000")
               [] f \in Wide -> (CASE x = 0 -> Zero32 [] x = 1 -> Rep("ff", 32) [] OTHER -> "a" \o DigitOf(x) \o Rep("0" \o DigitOf(x), 30) \o "b" \o DigitOf(x))
               [] OTHER -> (CASE x = 0 -> ZeroW [] x = 1 -> MaxW [] OTHER -> "c" \o DigitOf(x) \o "000000000000" \o "d" \o DigitOf(x))
Seg(n) == SubSeq("a1b2c3d4e5f60718293a4b5c6d7e8f90aabbccddeeff0011", 1, 2 * n)
Datas == { Seg(n) : n \in IF Rich THEN {0, 1, 7, 8, 9, 16, 17} ELSE {0, 1, 8, 9} }
Extra(t) == CASE t \in {"returnData", "logData"} -> { [data |-> d] : d \in Datas } \cup { [data |-> d, len |-> n] : d \in Datas, n \in {ZeroW, W(3), MaxW} }
              [] t = "messageOut" -> { [data |-> d, mid |-> Val("mid", 12), nonce |-> Val("nonce", 13), digest |-> Val("digest", 14), len |-> n] : d \in Datas, n \in {W(8), ZeroW} }
                                     \cup { [data |-> d, txid |-> Val("txid", 12), idx |-> n] : d \in Datas, n \in {ZeroW, W(255), W(256), W(1)} }
              [] t = "panic" -> { [pcid |-> "none"], [pcid |-> Zero32], [pcid |-> Val("pcid", 12)] }
              [] t = "scriptResult" -> { [result |-> r] : r \in { [t |-> "success"], [t |-> "revert"], [t |-> "panic"] }
                                                                 \cup { [t |-> "generic", c |-> c] : c \in {ZeroW, W(1), W(2), W(3), MaxW, "0100000000000000", "0000000100000000"} } }
              [] OTHER -> { [data |-> "\\none"] }
Without(r, f) == [x \in DOMAIN r \ {f} |-> r[x]]
\* all fields distinct; one of them zero or all ones; or all zero
Shapes(n) == {[k \in DOMAIN Names[n] |-> k + 1], [k \in DOMAIN Names[n] |-> 0]}
             \cup { [k \in DOMAIN Names[n] |-> IF k = j THEN x ELSE k + 1] : j \in DOMAIN Names[n], x \in {0, 1} }
\* data with a length around one and two bytes, for the first shape only
Long(n) == SubSeq(Rep(Seg(23), (n \div 23) + 1), 1, 2 * n)
LongExtra(t) == IF t \notin {"returnData", "logData", "messageOut"} \/ Focus # "receipt" THEN {}
                ELSE { (IF t = "messageOut" THEN [data |-> Long(n), txid |-> Val("txid", 12), idx |-> W(n)] ELSE [data |-> Long(n)]) : n \in {255, 256, 257, 1000, 65535, 65536, 65537} }
Init == /\ pc = "whole" /\ b = ""
        /\ \E n \in 1..11 : \E s \in Shapes(n) : \E e \in Extra(RepNames[n]) \cup (IF s = [k \in DOMAIN Names[n] |-> k + 1] THEN LongExtra(RepNames[n]) ELSE {}) :
             v = [t |-> RepNames[n]] @@ [f \in Range(Names[n]) |-> LET k == CHOOSE j \in DOMAIN Names[n] : Names[n][j] = f IN Val(f, s[k])]
                 @@ (IF Eq(e, [data |-> "\\none"]) THEN <<>> ELSE e)
E0 == REnc(Built(v))
Whole == pc = "whole" /\ Focus = "receipt" /\ pc' = "done" /\ b' = E0 /\ UNCHANGED v /\ Emit(CaseFile, ToJson([op |-> "receipt", v |-> v]))
Damaged(x) == pc = "whole" /\ Focus = "decode" /\ pc' = "bytes" /\ b' = x /\ UNCHANGED v /\ Emit(CaseFile, ToJson([op |-> "rdecode", bytes |-> x]))
Put(k, x) == Bytes(E0, 0, k) \o x \o From(E0, k + ByteLen(x))
Cut == \E k \in { j \in 0..(ByteLen(E0) - 1) : j % 8 \in {0, 7} } : Damaged(Bytes(E0, 0, k))
Extend == \E x \in {"", "00", Rep("ff", 16)} : Damaged(E0 \o x)
Word == \E k \in { 8 * j : j \in 0..(ByteLen(E0) \div 8 - 1) } : \E x \in {MaxW, W(1), W(11), "fffffffffffffff8", "0000000100000000"} : Damaged(Put(k, x))
Next == Whole \/ (Focus = "decode" /\ (Cut \/ Extend \/ Word))
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
R == Built(v)
RoundTrip == pc = "done" => RDec(b, 0) = DOk(RNorm(R), ByteLen(b)) /\ RDec(b \o "ff", 0) = RDec(b, 0)
Sizes == pc = "done" => RSize(R) = ByteLen(b) /\ ByteLen(b) % 8 = 0
\* each accessor gives the field of that name, under its own name, if the kind has it
Kept == pc = "done" =>
  LET a == Acc(R) IN
  /\ \A f \in DOMAIN v \ {"t", "txid", "idx", "to", "pcid"} : f \in DOMAIN a /\ Eq(a[f], v[f])
  /\ "to" \in DOMAIN v => (IF v.t = "transferOut" THEN a.toAddress = v.to /\ a.to = "none" ELSE a.to = v.to /\ a.toAddress = "none")
  /\ \A f \in DOMAIN a \ {"toAddress", "empty"} : (~ Eq(a[f], "none") /\ f \notin {"len", "digest", "mid", "nonce"}) => f \in DOMAIN v
  /\ (a.id = "none") <=> v.t \in {"scriptResult", "messageOut"}
  /\ (a.pc = "none") <=> v.t \in {"scriptResult", "messageOut"}
  /\ (a.data = "none") <=> v.t \notin {"returnData", "logData", "messageOut"}
  /\ v.t = "panic" => a.pcid = v.pcid
\* derived message fields
Derived == (pc = "done" /\ "txid" \in DOMAIN v) =>
  /\ R.nonce = Sha256(v.txid \o SubSeq(v.idx, 15, 16)) /\ R.digest = Sha256(v.data)
  /\ R.mid = Sha256(v.sender \o v.recipient \o R.nonce \o v.amount \o v.data)
\* accepted bytes are canonical
Canonical == pc = "bytes" => LET d == RDec(b, 0) IN
  d.r = "ok" => REnc(d.v) = Bytes(b, 0, d.p) /\ RNorm(d.v) = d.v
NoPrefix == (pc = "bytes" /\ ByteLen(b) < RSize(R)) => RDec(b, 0).r = "err"
=============================================================================
