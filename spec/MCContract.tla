------------------------------- MODULE MCContract ----------------------------
(* Bounded model of contract ids and roots (C19) and of derived addresses and *)
(* message ids (C22): bytecode grows byte by byte (word by word), slots are   *)
(* added in any order. The recursive definitions of the roots in Ident are    *)
(* compared with incremental algorithms.                                      *)
EXTENDS Ident, Json

CONSTANTS Focus, MaxWords, MaxSlots, CaseFile
VARIABLES code, slots, pc
vars == <<code, slots, pc>>

Word(n) == Rep("0" \o DigitOf(n), 8)
Tails == {"", "24", "2400", "00", "242424242424ff", Rep("00", 7)}
Key(n) == CASE n = 0 -> Zero32
            [] n = 1 -> Zeros(31) \o "01"
            [] n = 2 -> "80" \o Zeros(31)
            [] n = 3 -> "7f" \o Rep("ff", 31)
            [] n = 4 -> Rep("ff", 32)
            [] n = 5 -> "40" \o Zeros(31)
            [] n = 6 -> Zeros(15) \o "01" \o Zeros(16)
Slot(n, x) == [k |-> Key(n), v |-> IF x = 0 THEN Zero32 ELSE Rep("0" \o DigitOf(x), 32)]
Salt == Rep("5a", 32)
Created(wits, x) == [k |-> "create", price |-> ZeroW, limit |-> ZeroW, maturity |-> ZeroW, bcl |-> W(1), bwi |-> x, salt |-> Salt, slots |-> slots,
                     inputs |-> <<>>, outputs |-> <<>>, wits |-> wits]

\* transactions that create nothing
Others == { [k |-> "script", price |-> ZeroW, limit |-> ZeroW, maturity |-> ZeroW, script |-> code, data |-> "", rroot |-> Zero32, inputs |-> <<>>, outputs |-> <<>>, wits |-> <<code>>],
            [k |-> "mint", ptr |-> ZeroPtr, outputs |-> <<>>] }
Init == code = "" /\ slots = <<>> /\ pc = "code"
AddWord == /\ pc = "code" /\ Focus \notin {"slots", "order"} /\ ByteLen(code) % 8 = 0 /\ ByteLen(code) < 8 * MaxWords
           \* (two alternatives for the first words, then counting up)
           /\ \E x \in (IF ByteLen(code) < 24 THEN {1, 2} ELSE {(ByteLen(code) \div 8) % 16}) : code' = code \o Word(x)
           /\ UNCHANGED <<slots, pc>>
AddTail == pc = "code" /\ Focus \notin {"slots", "order"} /\ ByteLen(code) % 8 = 0 /\ \E t \in Tails \ {""} : code' = code \o t /\ UNCHANGED <<slots, pc>>
AddSlot == /\ pc \in {"code", "slots"} /\ Focus \in {"slots", "order"} /\ Len(slots) < MaxSlots
           /\ \E n \in 0..6, x \in {0, 1} : (Focus = "order" \/ Key(n) \notin { slots[j].k : j \in DOMAIN slots }) /\ slots' = Append(slots, Slot(n, x))
           /\ pc' = "slots" /\ UNCHANGED code
Finish == /\ pc # "done" /\ pc' = "done" /\ UNCHANGED <<code, slots>>
          /\ CASE Focus = "code" -> /\ Emit(CaseFile, ToJson([op |-> "contract", code |-> code, slots |-> <<>>, salt |-> Salt, tx |-> Created(<<code>>, 0)]))
                                    /\ Emit(CaseFile, ToJson([op |-> "contract", code |-> code, slots |-> <<>>, salt |-> Zero32, tx |-> Created(<<"01", code>>, 1)]))
                                    /\ Emit(CaseFile, ToJson([op |-> "contract", code |-> code, slots |-> <<>>, salt |-> Zero32, tx |-> Created(<<code>>, 1)]))
                                    /\ (ByteLen(code) < 9 => \A t \in Others : Emit(CaseFile, ToJson([op |-> "contract", code |-> code, slots |-> <<>>, salt |-> Zero32, tx |-> t])))
               [] Focus = "slots" -> Emit(CaseFile, ToJson([op |-> "contract", code |-> "24", slots |-> slots, salt |-> Salt, tx |-> Created(<<"24">>, 0)]))
               [] Focus = "order" -> Emit(CaseFile, ToJson([op |-> "order", slots |-> slots]))
               [] Focus = "derive" ->
                    \A z \in {0, 1, 2, 3, 4, 5, 6} :
                      LET d(n) == IF z = n THEN Zero32 ELSE Rep("0" \o DigitOf(n), 32)
                          w(n) == IF z = n THEN ZeroW ELSE W(n) IN
                      Emit(CaseFile, ToJson([op |-> "derive", sender |-> d(1), recipient |-> d(2), nonce |-> w(3), amount |-> w(4), data |-> code, txid |-> d(5),
                                             nonce32 |-> d(6), pred |-> code, owner |-> [pred |-> Pad(code)], key |-> z, idx |-> IF z = 0 THEN W(256) ELSE W(40 * z)]))
Next == AddWord \/ AddTail \/ AddSlot \/ Finish
Spec == Init /\ [][Next]_vars

(******************************** properties ********************************)
Done == pc = "done"
\* binary Merkle tree built left to right: a stack of [h, d] with strictly falling heights
RECURSIVE Push(_, _)
Push(st, n) == IF st # <<>> /\ st[Len(st)].h = n.h
               THEN Push(SubSeq(st, 1, Len(st) - 1), [h |-> n.h + 1, d |-> Sha256("01" \o st[Len(st)].d \o n.d)])
               ELSE Append(st, n)
RECURSIVE PushAll(_, _)
PushAll(st, leaves) == IF leaves = <<>> THEN st ELSE PushAll(Push(st, [h |-> 0, d |-> Sha256("00" \o leaves[1])]), Tail(leaves))
RECURSIVE Fold(_)
Fold(st) == IF Len(st) = 1 THEN st[1].d
            ELSE Fold(Append(SubSeq(st, 1, Len(st) - 2), [h |-> 0, d |-> Sha256("01" \o st[Len(st) - 1].d \o st[Len(st)].d)]))
Incremental(leaves) == IF leaves = <<>> THEN Sha256("") ELSE Fold(PushAll(<<>>, leaves))
Leaves == LET n == PadLen(ByteLen(code)) \div 8  c == Pad(code) IN [k \in 1..n |-> SubSeq(c, 16 * k - 15, 16 * k)]
CodeRootsAgree == Done => CodeRoot(code) = Incremental(Leaves)
\* zero bytes up to the word boundary are indistinguishable, anything else is not
PaddingOnly == Done => CodeRoot(code) = CodeRoot(Pad(code)) /\ CodeRoot(code) # CodeRoot(code \o Rep("00", 8)) /\ CodeRoot(code) # CodeRoot(Pad(code) \o "01")
PredicateIsCode == Done => PredicateOwner(code) = CodeRoot(code)

\* sparse Merkle tree by insertion of one leaf after the other into an explicit tree:
\* "" (empty, hash zero), [k, d] (leaf) or [l, r] (node)
LeafT(s) == [k |-> s.k, d |-> Sha256("00" \o s.k \o Sha256(s.v))]
BitOf(k, n) == LET x == DigitVal(SubSeq(k, n \div 4 + 1, n \div 4 + 1)) IN <<x \div 8, (x \div 4) % 2, (x \div 2) % 2, x % 2>>[(n % 4) + 1]
RECURSIVE Split(_, _, _)
Split(a, c, n) == IF BitOf(a.k, n) = 0 /\ BitOf(c.k, n) = 0 THEN [l |-> Split(a, c, n + 1), r |-> [e |-> 0]]
                  ELSE IF BitOf(a.k, n) = 1 /\ BitOf(c.k, n) = 1 THEN [l |-> [e |-> 0], r |-> Split(a, c, n + 1)]
                  ELSE IF BitOf(a.k, n) = 0 THEN [l |-> a, r |-> c] ELSE [l |-> c, r |-> a]
RECURSIVE Insert(_, _, _)
Insert(t, x, n) == IF "e" \in DOMAIN t THEN x
                   ELSE IF "k" \in DOMAIN t THEN Split(t, x, n)
                   ELSE IF BitOf(x.k, n) = 0 THEN [t EXCEPT !.l = Insert(t.l, x, n + 1)] ELSE [t EXCEPT !.r = Insert(t.r, x, n + 1)]
RECURSIVE HashT(_)
HashT(t) == IF "e" \in DOMAIN t THEN Zero32 ELSE IF "k" \in DOMAIN t THEN t.d ELSE Sha256("01" \o HashT(t.l) \o HashT(t.r))
RECURSIVE Tree(_, _)
Tree(t, ss) == IF ss = <<>> THEN t ELSE Tree(Insert(t, LeafT(ss[1]), 0), Tail(ss))
\* sorting: a permutation, ascending, equal keys stay in place
Distinct == Cardinality({ slots[j].k : j \in DOMAIN slots }) = Len(slots)
Sorts == Done => LET q == SortSlots(slots) IN
  /\ Len(q) = Len(slots)
  /\ \A s \in Range(slots) \cup Range(q) : SelectSeq(q, LAMBDA t : t = s) = SelectSeq(slots, LAMBDA t : t = s)
  /\ \A j \in 1..(Len(q) - 1) : SlotCmp(q[j], q[j + 1]) # 1
  /\ \A s \in Range(slots) : SelectSeq(q, LAMBDA t : t.k = s.k) = SelectSeq(slots, LAMBDA t : t.k = s.k)
StateRootsAgree == Done /\ Distinct => StateRoot(slots) = HashT(Tree([e |-> 0], slots))
OrderIrrelevant == Done /\ Distinct => \A j \in DOMAIN slots : StateRoot(slots) = StateRoot([k \in DOMAIN slots |-> slots[((k + j - 1) % Len(slots)) + 1]])
\* every slot counts
EverySlotCounts == Done /\ Distinct => \A j \in DOMAIN slots : StateRoot(slots) # StateRoot(SubSeq(slots, 1, j - 1) \o SubSeq(slots, j + 1, Len(slots)))
                                                /\ StateRoot(slots) # StateRoot([slots EXCEPT ![j].v = Rep("77", 32)])
=============================================================================
