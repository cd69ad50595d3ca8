------------------------------ MODULE ThPipe ------------------------------
(* The pipe of lib/os/threads as its users see it: a bounded first-in
   first-out queue shared by threads. Each call takes effect at one moment
   between its start and its return.
     st: [q |-> <<items>>, closed |-> BOOLEAN,
          pend |-> thread -> [op, v, st, old]]
   op: "w" write v, "r" read, "n" read and discard, "x" close, "" none.
   st: "new" (called), "done" (took effect, result in v).
   old: the call had begun before the pipe was closed.                      *)
EXTENDS Integers, Sequences, FiniteSets, TLC
NoOp == [op |-> "", v |-> 0, st |-> "done", old |-> FALSE]
Call(s, t, op, v) == [s EXCEPT !.pend[t] = [op |-> op, v |-> v, st |-> "new", old |-> ~s.closed]]
CanWrite(s, t, cap) == Len(s.q) < cap /\ (~s.closed \/ s.pend[t].old)
CanRead(s) == s.q # <<>> \/ s.closed
\* the moment of effect of the pending call of t, when it is possible
CanEffect(s, t, cap) ==
    /\ s.pend[t].st = "new"
    /\ CASE s.pend[t].op = "w" -> CanWrite(s, t, cap)
         [] s.pend[t].op \in {"r", "n"} -> CanRead(s)
         [] OTHER -> TRUE
Effect(s, t) ==
    LET p == s.pend[t] IN
    CASE p.op = "w" -> [s EXCEPT !.q = Append(@, p.v), !.pend[t].st = "done"]
      [] p.op = "x" -> [s EXCEPT !.closed = TRUE, !.pend[t].st = "done"]
      [] s.q # <<>> -> [s EXCEPT !.q = Tail(@), !.pend[t].st = "done", !.pend[t].v = IF p.op = "n" THEN 0 ELSE s.q[1]]
      [] OTHER -> [s EXCEPT !.pend[t].st = "done", !.pend[t].v = -1]
CanReturn(s, t, op, v) == s.pend[t].op = op /\ s.pend[t].st = "done" /\ s.pend[t].v = v
Return(s, t) == [s EXCEPT !.pend[t] = NoOp]
\* a write that finds the pipe closed ends the program
CanPanic(s) == s.closed /\ \E t \in DOMAIN s.pend : s.pend[t].op = "w" /\ s.pend[t].st = "new"
=============================================================================
