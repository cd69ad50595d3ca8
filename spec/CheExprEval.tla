---------------------------- MODULE CheExprEval ----------------------------
(* Evaluates externally generated expression trees (cases.ndjson) with the
   specification: one state per tree; prints the conformance vector.         *)
EXTENDS CheExpr, Json
VARIABLE i
Cases == ndJsonDeserialize("cases.ndjson")
Init == i \in 1..Len(Cases)
Next == FALSE /\ i' = i
Spec == Init /\ [][Next]_i
Emit == LET e == Cases[i] IN Usable(e) =>
        LET r == Run(e) IN PrintT("VEC " \o ToJson([id |-> i, t |-> Tok(e), ty |-> Ty(e), v |-> r.v, m |-> r.m, log |-> r.log]))
=============================================================================
