-------------------------- MODULE CheModulesEval --------------------------
EXTENDS CheModules, Json
VARIABLE i
Cases == ndJsonDeserialize("cases.ndjson")
N == Len(Cases)
Init == i \in 1..N
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
C == Cases[i]
P == C.prog
Loop == HasLoop(P)
EmitRes == PrintT("RES " \o ToJson([id |-> C.id, loop |-> Loop, ok |-> Accepted(P), misused |-> Misused(P), reach |-> SetToSeq(Mods(P)),
    view |-> View(P), exports |-> [k \in DOMAIN P |-> Exports(P, k)],
    tree |-> IF Loop THEN <<>> ELSE Tree(P, 1, 0),
    fan |-> IF Loop THEN <<>> ELSE FanRun(P)]))
=============================================================================
