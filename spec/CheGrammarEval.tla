-------------------------- MODULE CheGrammarEval --------------------------
EXTENDS CheGrammar, Json
VARIABLE i
Cases0 == ndJsonDeserialize("cases.ndjson")
Init == i \in 1..Len(Cases0)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
C == Cases0[i]
EmitRes == PrintT("RES " \o ToJson([id |-> C.id, g |-> IF C.only = "balance" THEN Balanced(C.t) ELSE IsModule(C.t)]))
=============================================================================
