----------------------------- MODULE ClipEval -----------------------------
EXTENDS Clip, Json, TLC
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLE i
Init == i \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
EmitRes == PrintT("RES " \o ToJson([i |-> i, o |-> Run(Cases[i].c, <<>>, Cases[i].ps, Cases[i].sz, <<>>)]))
=============================================================================
