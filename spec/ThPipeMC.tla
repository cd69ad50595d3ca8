----------------------------- MODULE ThPipeMC -----------------------------
(* The algorithm: a ring guarded by a mutex and two condition variables, with
   spurious wake-ups and any choice of the woken thread. It implements the
   queue of ThPipe: items arrive once, in order; a call that could proceed
   never sleeps forever.                                                    *)
EXTENDS Integers, Sequences, FiniteSets, TLC
CONSTANTS Cap, NW, NR, Items, Spurious
Writers == { <<"w", k>> : k \in 1..NW }
Readers == { <<"r", k>> : k \in 1..NR }
Closer == <<"x", 1>>
Threads == Writers \cup Readers \cup {Closer}
VARIABLES owner, q, closed, pc, waitR, waitW, left, got, hist
vars == <<owner, q, closed, pc, waitR, waitW, left, got, hist>>
Init == /\ owner = {} /\ q = <<>> /\ closed = FALSE
        /\ pc = [t \in Threads |-> "lock"] /\ waitR = {} /\ waitW = {}
        /\ left = [t \in Writers |-> Items] /\ got = [t \in Readers |-> <<>>] /\ hist = <<>>
Lock(t) == /\ pc[t] = "lock" /\ owner = {}
           /\ (t = Closer => \A w \in Writers : pc[w] = "end")
           /\ owner' = {t} /\ pc' = [pc EXCEPT ![t] = "crit"] /\ UNCHANGED <<q, closed, waitR, waitW, left, got, hist>>
WriteOk(t) == /\ t \in Writers /\ pc[t] = "crit" /\ Len(q) < Cap
              /\ q' = Append(q, <<t, left[t]>>) /\ hist' = Append(hist, <<t, left[t]>>)
              /\ left' = [left EXCEPT ![t] = @ - 1] /\ owner' = {}
              /\ pc' = [pc EXCEPT ![t] = "signal"] /\ UNCHANGED <<closed, waitR, waitW, got>>
WriteWait(t) == /\ t \in Writers /\ pc[t] = "crit" /\ Len(q) = Cap
                /\ waitW' = waitW \cup {t} /\ owner' = {} /\ pc' = [pc EXCEPT ![t] = "wait"]
                /\ UNCHANGED <<q, closed, waitR, left, got, hist>>
ReadOk(t) == /\ t \in Readers /\ pc[t] = "crit" /\ q # <<>>
             /\ q' = Tail(q) /\ got' = [got EXCEPT ![t] = Append(@, q[1])] /\ owner' = {}
             /\ pc' = [pc EXCEPT ![t] = "signal"] /\ UNCHANGED <<closed, waitR, waitW, left, hist>>
ReadEnd(t) == /\ t \in Readers /\ pc[t] = "crit" /\ q = <<>> /\ closed
              /\ owner' = {} /\ pc' = [pc EXCEPT ![t] = "end"] /\ UNCHANGED <<q, closed, waitR, waitW, left, got, hist>>
ReadWait(t) == /\ t \in Readers /\ pc[t] = "crit" /\ q = <<>> /\ ~closed
               /\ waitR' = waitR \cup {t} /\ owner' = {} /\ pc' = [pc EXCEPT ![t] = "wait"]
               /\ UNCHANGED <<q, closed, waitW, left, got, hist>>
After(t) == IF t \in Writers THEN IF left[t] = 0 THEN "end" ELSE "lock" ELSE "lock"
Signal(t) == /\ pc[t] = "signal"
             /\ LET S == IF t \in Writers THEN waitR ELSE waitW IN
                IF S = {} THEN pc' = [pc EXCEPT ![t] = After(t)] /\ UNCHANGED <<waitR, waitW>>
                ELSE \E u \in S : /\ pc' = [pc EXCEPT ![t] = After(t), ![u] = "lock"]
                                  /\ waitR' = waitR \ {u} /\ waitW' = waitW \ {u}
             /\ UNCHANGED <<owner, q, closed, left, got, hist>>
Close == /\ pc[Closer] = "crit" /\ closed' = TRUE /\ waitR' = {} /\ owner' = {}
         /\ pc' = [t \in Threads |-> IF t \in waitR THEN "lock" ELSE IF t = Closer THEN "end" ELSE pc[t]]
         /\ UNCHANGED <<q, waitW, left, got, hist>>
Wake == /\ Spurious /\ \E u \in waitR \cup waitW : /\ pc' = [pc EXCEPT ![u] = "lock"]
                                                   /\ waitR' = waitR \ {u} /\ waitW' = waitW \ {u}
        /\ UNCHANGED <<owner, q, closed, left, got, hist>>
Do(t) == Lock(t) \/ WriteOk(t) \/ WriteWait(t) \/ ReadOk(t) \/ ReadEnd(t) \/ ReadWait(t) \/ Signal(t) \/ (t = Closer /\ Close)
Finished == \A t \in Threads : pc[t] = "end"
Next == (\E t \in Threads : Do(t)) \/ Wake \/ (Finished /\ UNCHANGED vars)
Spec == Init /\ [][Next]_vars /\ \A t \in Threads : SF_vars(Do(t))
----------------------------------------------------------------------------
Range(f) == { f[x] : x \in DOMAIN f }
Bounded == Len(q) <= Cap
Mutex == Cardinality(owner) <= 1
\* nothing lost, nothing twice
Conserved == LET d == [t \in Readers |-> Range(got[t])] IN
    /\ Range(hist) = Range(q) \cup UNION { d[t] : t \in Readers }
    /\ Len(hist) = Len(q) + LET RECURSIVE Sum(_) Sum(S) == IF S = {} THEN 0 ELSE LET x == CHOOSE x \in S : TRUE IN Len(got[x]) + Sum(S \ {x}) IN Sum(Readers)
\* each reader sees a subsequence of what was written, in order
InOrder == \A t \in Readers : \A a, b \in DOMAIN got[t] : a < b =>
    (CHOOSE k \in DOMAIN hist : hist[k] = got[t][a]) < (CHOOSE k \in DOMAIN hist : hist[k] = got[t][b])
AllEnd == <>Finished
=============================================================================
