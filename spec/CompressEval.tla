---------------------------- MODULE CompressEval ----------------------------
(* The given histories as behaviours: one step per operation.               *)
EXTENDS Compress, Json
Cases == ndJsonDeserialize("cases.ndjson")
VARIABLES i, k, s, o
Init == i \in 1..Len(Cases) /\ k = 0 /\ s = Start(Cases[i].c) /\ o = <<>>
Next == /\ k < Len(Cases[i].ps)
        /\ LET r == Do(Cases[i].c, s, Cases[i].ps[k + 1]) IN s' = r.s /\ o' = r.o
        /\ k' = k + 1 /\ UNCHANGED i
Spec == Init /\ [][Next]_<<i, k, s, o>>
EmitRes == k > 0 => PrintT("RES " \o ToJson([i |-> i, k |-> k, o |-> o]))
=============================================================================
