-------------------------------- MODULE Trace --------------------------------
(* Trace validation: TLC walks through recorded executions of the real code  *)
(* and checks each against the specification. Lanes are independent chains   *)
(* of records, so that the workers share the file. A history (op "life") is  *)
(* followed step by step with S, the set of specification states consistent  *)
(* with everything observed so far; it must never become empty.              *)
EXTENDS Judge, Json

CONSTANTS TraceFile, FailFile, Lanes
Recs == ndJsonDeserialize(TraceFile)
N == Len(Recs)

VARIABLES i,     \* the record
          pos,   \* steps of it done (0: not judged yet)
          S      \* states the specification allows here (histories)
vars == <<i, pos, S>>

Report(k, msgs) == \A m \in msgs : Emit(FailFile, ToString(k) \o "\t" \o m)
Steps(k) == IF Recs[k].op = "life" /\ Has(Recs[k].obs, "tr") THEN Len(Recs[k].obs.tr) ELSE 1

Init == \E k \in 1..Lanes : k <= N /\ i = k /\ pos = 0 /\ S = {}

Single == /\ Recs[i].op # "life" \/ ~ Has(Recs[i].obs, "tr")
          /\ Report(i, Fails(Recs[i]))
          /\ S' = {}
Begin == /\ Recs[i].op = "life" /\ pos = 0
         /\ LET o == Recs[i].obs.tr[1].st  s == Bare(Recs[i].tx, <<>>) IN
            IF ObsOk(s, o) THEN S' = {s} ELSE S' = {Free} /\ Report(i, IF Prop = "C11" THEN {"initial state"} ELSE {})
Walk == /\ Recs[i].op = "life" /\ pos > 0
        /\ LET ev == EvOf(Recs[i].obs.tr[pos + 1])  T == StepSet(S, ev) IN
           IF T # {} THEN S' = T
           ELSE S' = {Free} /\ Report(i, IF Prop \in StepProps(ev) THEN {"step " \o ToString(pos) \o " (" \o ev.s \o "): no behaviour of the specification does this"} ELSE {})
Judged == /\ pos < Steps(i)
          /\ (Single \/ (Has(Recs[i].obs, "tr") /\ (Begin \/ Walk)))
          /\ pos' = pos + 1
          /\ i' = i
Advance == pos = Steps(i) /\ i + Lanes <= N /\ i' = i + Lanes /\ pos' = 0 /\ S' = {}
Next == Judged \/ Advance
Spec == Init /\ [][Next]_vars
=============================================================================
