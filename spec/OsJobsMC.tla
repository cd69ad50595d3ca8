------------------------------- MODULE OsJobsMC -------------------------------
(* proc.parallel: jobs are begun in order, at most Width at a time, and end in
   any order; the call returns when all have ended.                          *)
EXTENDS Naturals, FiniteSets
CONSTANTS Jobs, Width
VARIABLES next, run, done, ret
vars == <<next, run, done, ret>>
Init == next = 1 /\ run = {} /\ done = {} /\ ret = FALSE
Begin == ~ret /\ next <= Jobs /\ Cardinality(run) < Width /\ run' = run \cup {next} /\ next' = next + 1 /\ UNCHANGED <<done, ret>>
End == \E j \in run : run' = run \ {j} /\ done' = done \cup {j} /\ UNCHANGED <<next, ret>>
Return == ~ret /\ next > Jobs /\ run = {} /\ ret' = TRUE /\ UNCHANGED <<next, run, done>>
Next == Begin \/ End \/ Return
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
Width3 == Cardinality(run) <= Width
Once == run \cap done = {} /\ run \cup done = 1..(next - 1)
AllDone == ret => done = 1..Jobs
Ends == <>ret
=============================================================================
