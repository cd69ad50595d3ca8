---------------------------- MODULE CheLexEval ----------------------------
EXTENDS CheLex, Json
VARIABLE i
Cases0 == ndJsonDeserialize("cases.ndjson")
Init == i \in 1..Len(Cases0)
Next == FALSE /\ UNCHANGED i
Spec == Init /\ [][Next]_i
C == Cases0[i]
Lit(t) == CASE t.k = "str" -> [k |-> "str", v |-> t.v]
            [] t.k = "chr" -> [k |-> "chr", v |-> t.v]
            [] t.k = "num" -> IF IsFloatText(t.v) THEN [k |-> "flt", v |-> <<Milli(t.v)>>]
                              ELSE IF Len(t.v) > 9 THEN [k |-> "big", v |-> t.v] ELSE [k |-> "int", v |-> <<IntValue(t.v)>>]
            [] OTHER -> [k |-> t.k, v |-> t.v]
EmitRes == LET ts == Lex(C.s) IN
    PrintT("RES " \o ToJson([id |-> C.id, toks |-> [j \in DOMAIN ts |->
        LET l == Lit(ts[j]) IN [k |-> l.k, v |-> l.v, line |-> LineOf(C.s, ts[j].a), col |-> ColOf(C.s, ts[j].a)]]]))
=============================================================================
