---------------------------- MODULE CheCmdEval ----------------------------
EXTENDS CheCmd, Json
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLE i
Init == i \in 1..Len(Cases)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
Res(x) == CASE x.k = "test" -> [a |-> Judge(x.dirs, x.ev, TRUE), b |-> Judge(x.dirs, x.ev, FALSE)]
            [] x.k = "exports" -> Exports(x.els)
            [] OTHER -> [tree |-> Tree(x.imports, x.root, 0)]
EmitRes == PrintT("RES " \o ToJson([i |-> i, r |-> Res(Cases[i])]))
=============================================================================
