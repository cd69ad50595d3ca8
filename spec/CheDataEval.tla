---------------------------- MODULE CheDataEval ----------------------------
EXTENDS CheData, Json
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLE i
Init == i \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
EmitRes == PrintT("RES " \o ToJson([i |-> i, out |-> Run(Cases[i])]))
=============================================================================
