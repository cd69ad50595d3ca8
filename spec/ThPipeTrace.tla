---------------------------- MODULE ThPipeTrace ----------------------------
(* Checks recorded executions of the real pipe: is there a moment of effect
   for every call such that all results agree?  cases.ndjson: [id, fill, ev];
   events [k, t, op, v]: "c" call, "r" return, "Q" all threads of ts blocked,
   "p" the program ended by a panic, "e" the program ended.                 *)
EXTENDS ThPipe, Json
CONSTANT Cap
VARIABLES c, i, s
Cases == ndJsonDeserialize("cases.ndjson")
CasesC == Cases
Ev == CasesC[c].ev
T == 1..CasesC[c].nt
Init == /\ c \in 1..Len(CasesC) /\ i = 1
        /\ s = [q |-> [k \in 1..CasesC[c].fill |-> k - 1], closed |-> FALSE, pend |-> [t \in 1..CasesC[c].nt |-> NoOp]]
Step == /\ i <= Len(Ev)
        /\ LET e == Ev[i] IN
           \/ /\ e.k = "c" /\ s.pend[e.t] = NoOp /\ s' = Call(s, e.t, e.op, e.v)
           \/ /\ e.k = "r" /\ CanReturn(s, e.t, e.op, e.v) /\ s' = Return(s, e.t)
           \/ /\ e.k = "p" /\ CanPanic(s) /\ s' = s
           \/ /\ e.k = "e" /\ (\A t \in T : s.pend[t] = NoOp) /\ s' = s
           \/ /\ e.k = "Q" /\ s' = s
              /\ LET B == { e.ts[j] : j \in 1..Len(e.ts) } IN
                 \A t \in T : IF t \in B
                              THEN /\ s.pend[t].st = "new"
                                   /\ IF s.pend[t].op = "w" THEN Len(s.q) = Cap ELSE s.pend[t].op \in {"r", "n"} /\ ~CanRead(s)
                              ELSE s.pend[t] = NoOp
        /\ i' = i + 1 /\ UNCHANGED c
\* effects are taken only when the next event is a return, a stop or the end: later is enough
Eff == /\ i <= Len(Ev) /\ Ev[i].k # "c"
       /\ \E t \in T : CanEffect(s, t, Cap) /\ s' = Effect(s, t)
       /\ UNCHANGED <<c, i>>
Next == Step \/ Eff
Spec == Init /\ [][Next]_<<c, i, s>>
Bound == Len(s.q) <= Cap
EmitRes == i = Len(Ev) + 1 => PrintT("RES " \o ToJson([id |-> CasesC[c].id]))
EmitProg == TRUE
=============================================================================
