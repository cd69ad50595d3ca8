--------------------------- MODULE CheTypesEval ---------------------------
EXTENDS CheTypes, Json
Env == ndJsonDeserialize("env.ndjson")[1]
E == [vars |-> Env.vars, als |-> Env.als, sts |-> Env.sts, foreign |-> ToSet(Env.foreign)]
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLE i
Init == i \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
EmitRes == PrintT("RES " \o ToJson([i |-> i, v |-> Verdict(E, Cases[i].e, Cases[i].w)]))
=============================================================================
