-------------------------------- MODULE MCAuth -------------------------------
(* Bounded model of authorization (C07). Signatures and addresses are        *)
(* symbolic: the address of key k is [key |-> k], that of predicate c is     *)
(* [pred |-> c], and the configuration replaces the cryptographic operators  *)
(* of the specification by the operators M... below.                         *)
EXTENDS Ledger, Params, Json

CONSTANTS MaxIn, MaxWit, What, CaseFile
VARIABLES tx, pc
vars == <<tx, pc>>

MSigOwner(w, id) == IF Has(w, "sig") /\ ~ Has(w, "msg") /\ ~ Has(w, "cut") /\ ~ Has(w, "ext") THEN [key |-> w.sig] ELSE [key |-> -1]
MPredicateOwner(c) == [pred |-> c]
MTxId(t) == "id"

Wits == << "", [sig |-> 0], [sig |-> 1], [sig |-> 0, msg |-> Rep("07", 32)], [sig |-> 0, cut |-> 1], [sig |-> 1, ext |-> 1], Zeros(64) >>
U(n) == [id |-> Zeros(31) \o "0" \o DigitOf(n), ix |-> 0]
Owners == { [key |-> 0], [key |-> 1], [pred |-> "24"], [pred |-> "2400"] }
Preds == {"24", "2400", Rep("24", 8), ""}
Ins(n) ==
  { [t |-> "coinSigned", utxo |-> U(n), owner |-> o, amount |-> W(1), asset |-> BASE, ptr |-> ZeroPtr, wix |-> x, maturity |-> ZeroW]
    : o \in Owners \ {[pred |-> "2400"]}, x \in 0..MaxWit }
  \cup { [t |-> "messageSigned", mid |-> U(n).id, sender |-> Zero32, recipient |-> o, amount |-> W(1), nonce |-> ZeroW, wix |-> x, data |-> ""]
         : o \in { [key |-> 0], [key |-> 1] }, x \in 0..MaxWit }
  \cup { [t |-> "coinPredicate", utxo |-> U(n), owner |-> o, amount |-> W(1), asset |-> BASE, ptr |-> ZeroPtr, maturity |-> ZeroW, pred |-> c, pdata |-> "01"]
         : o \in Owners \ {[key |-> 1]}, c \in Preds }
  \cup { [t |-> "messagePredicate", mid |-> U(n).id, sender |-> Zero32, recipient |-> o, amount |-> W(1), nonce |-> ZeroW, data |-> "", pred |-> c, pdata |-> ""]
         : o \in { [key |-> 0], [pred |-> "24"] }, c \in {"24", "2400"} }
  \cup { [t |-> "contract", utxo |-> U(n), broot |-> Zero32, sroot |-> Zero32, ptr |-> ZeroPtr, cid |-> U(n).id] }
Tx0 == [k |-> "script", price |-> ZeroW, limit |-> ZeroW, maturity |-> ZeroW, script |-> "", data |-> "", rroot |-> Zero32,
        inputs |-> <<>>, outputs |-> <<>>, wits |-> <<>>]
P0 == [n \in ParamNames |-> IF n = "gasPriceFactor" THEN W(1) ELSE IF n = "gasPerByte" THEN ZeroW ELSE MaxW]

Init == tx = Tx0 /\ pc = "wits"
AddWit == pc = "wits" /\ Len(tx.wits) < MaxWit /\ \E n \in DOMAIN Wits : tx' = [tx EXCEPT !.wits = Append(@, Wits[n])] /\ UNCHANGED pc
AddIn == /\ pc \in {"wits", "in"} /\ Len(tx.inputs) < MaxIn
         /\ \E i \in Ins(Len(tx.inputs) + 1) :
              tx' = [tx EXCEPT !.inputs = Append(@, i),
                               !.outputs = IF i.t = "contract" THEN Append(@, [t |-> "contract", inix |-> Len(tx.inputs), broot |-> Zero32, sroot |-> Zero32]) ELSE @]
         /\ pc' = "in"
Finish == /\ pc # "done" /\ pc' = "done" /\ UNCHANGED tx
          /\ Emit(CaseFile, ToJson([op |-> "check", what |-> What, height |-> ZeroW, params |-> P0, tx |-> tx]))
Next == AddWit \/ AddIn \/ Finish
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
V == SigViolations(tx)
\* every input that somebody owns is spent by its owner
OwnerSpends(i) ==
  CASE Has(i, "wix") -> /\ i.wix < Len(tx.wits)
                        /\ LET w == tx.wits[i.wix + 1]  o == IF Has(i, "owner") THEN i.owner ELSE i.recipient IN
                           Has(w, "sig") /\ Eq(w, [sig |-> w.sig]) /\ Eq(o, [key |-> w.sig])
    [] Has(i, "pred") -> Eq(IF Has(i, "owner") THEN i.owner ELSE i.recipient, [pred |-> i.pred])
    [] OTHER -> TRUE
Authorized == pc = "done" => (V = {} <=> \A k \in DOMAIN tx.inputs : OwnerSpends(tx.inputs[k]))
\* an unauthorized input is named
Named == pc = "done" => \A k \in DOMAIN tx.inputs : ~ OwnerSpends(tx.inputs[k]) <=> \E e \in V : e.ix = k - 1
\* taking the witnesses away leaves only predicates and contracts
NoWitsNoSignatures == (pc = "done" /\ SigViolations([tx EXCEPT !.wits = <<>>]) = {}) => \A k \in DOMAIN tx.inputs : tx.inputs[k].t \notin SignedKinds
\* the check without signatures already refuses a missing witness
BoundsSeen == pc = "done" => \A k \in DOMAIN tx.inputs :
  (Has(tx.inputs[k], "wix") /\ tx.inputs[k].wix >= Len(tx.wits)) => EI("InputWitnessIndexBounds", k - 1) \in Violations(tx, ZeroW, P0) \cap V
=============================================================================
