-------------------------------- MODULE Params ------------------------------
(* Consensus parameters: a record, its setters and the published defaults.   *)
EXTENDS Prim
ParamNames == {"contractMaxSize", "maxInputs", "maxOutputs", "maxWitnesses", "maxGasPerTx", "maxScriptLength", "maxScriptDataLength",
  "maxStorageSlots", "maxPredicateLength", "maxPredicateDataLength", "gasPriceFactor", "gasPerByte", "maxMessageDataLength"}
DefaultParams == [contractMaxSize |-> W(16777216), maxInputs |-> W(255), maxOutputs |-> W(255), maxWitnesses |-> W(255),
  maxGasPerTx |-> W(100000000), maxScriptLength |-> W(1048576), maxScriptDataLength |-> W(1048576), maxStorageSlots |-> W(255),
  maxPredicateLength |-> W(1048576), maxPredicateDataLength |-> W(1048576), gasPriceFactor |-> W(1000000000), gasPerByte |-> W(4),
  maxMessageDataLength |-> W(1048576)]
SetParam(p, f, x) == [p EXCEPT ![f] = x]
RECURSIVE ParamRun(_, _, _)
ParamRun(p, steps, n) == IF n = 0 THEN p ELSE SetParam(ParamRun(p, steps, n - 1), steps[n].f, steps[n].x)
\* where a transaction starts in memory: id, size word, one balance (asset and word) per input
TxOffset(p) == 32 + 8 + N2I(p.maxInputs) * 40
=============================================================================
