--------------------------- MODULE CheScopeEval ---------------------------
EXTENDS CheScope, Json
VARIABLE i
Cases0 == ndJsonDeserialize("cases.ndjson")
N == Len(Cases0)
Init == i \in 1..N
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
C == Cases0[i]
EmitRes == PrintT("RES " \o ToJson([id |-> C.id, faults |-> SetToSeq(Faults(C.m)), unclear |-> Unclear(C.m)]))
=============================================================================
