-------------------------------- MODULE MCParams -----------------------------
(* Bounded model of the parameter setters (C24): every sequence of up to     *)
(* Depth settings.                                                           *)
EXTENDS Params, Json
CONSTANTS Depth, CaseFile
VARIABLES steps, p
vars == <<steps, p>>
Odd == [f \in ParamNames |-> "0123456789abcdef"]
Names == <<"contractMaxSize", "maxInputs", "maxOutputs", "maxWitnesses", "maxGasPerTx", "maxScriptLength", "maxScriptDataLength",
  "maxStorageSlots", "maxPredicateLength", "maxPredicateDataLength", "gasPriceFactor", "gasPerByte", "maxMessageDataLength">>
NumberOf(f) == CHOOSE n \in DOMAIN Names : Names[n] = f
Values(f) == {ZeroW, W(NumberOf(f)), MaxW}
Init == steps = <<>> /\ p = DefaultParams
Set == /\ Len(steps) < Depth
       /\ \E f \in ParamNames : \E x \in (IF Depth <= 2 THEN Values(f) ELSE {W(NumberOf(f) + 16 * Len(steps))}) :
            steps' = Append(steps, [f |-> f, x |-> x]) /\ p' = SetParam(p, f, x)
       /\ Emit(CaseFile, ToJson([op |-> "params", steps |-> steps']))
       /\ (Len(steps) = 0 => Emit(CaseFile, ToJson([op |-> "params", init |-> Odd, steps |-> steps'])))
Next == Set
Spec == Init /\ [][Next]_vars
\* the latest setting of a parameter counts, and parameters that were not set keep their value
LatestCounts == \A f \in ParamNames :
  LET at == { k \in DOMAIN steps : steps[k].f = f } IN
  p[f] = (IF at = {} THEN DefaultParams[f] ELSE steps[CHOOSE k \in at : \A j \in at : j <= k].x)
Replayed == p = ParamRun(DefaultParams, steps, Len(steps))
\* exactly the parameters that exist
Complete == DOMAIN p = ParamNames /\ DOMAIN DefaultParams = ParamNames /\ Range(Names) = ParamNames
\* setting twice is setting once; settings of different parameters commute
Commute == \A f, g \in ParamNames : f # g => SetParam(SetParam(p, f, ZeroW), g, MaxW) = SetParam(SetParam(p, g, MaxW), f, ZeroW)
OnlyThatOne == [][\A f \in ParamNames : p'[f] # p[f] => f = steps'[Len(steps')].f]_vars
=============================================================================
