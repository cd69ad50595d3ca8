--------------------------- MODULE CheImportsMC ---------------------------
(* All import graphs over N modules (main is module 1), import lists in
   ascending or descending order.                                          *)
EXTENDS CheModules, Json
CONSTANTS N, Emit
VARIABLES g, phase
Lists(S) == { SetToSortSeq(S, <), SetToSortSeq(S, >) }
ImportChoices == UNION { Lists(S) : S \in SUBSET (1..N) }
AsProg(f) == [i \in 1..N |-> [imports |-> f[i], items |-> <<>>, refs |-> <<>>]]
Init == g \in [1..N -> ImportChoices] /\ phase = 0
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED g
Spec == Init /\ [][Next]_<<g, phase>>
P == AsProg(g)
Perms(S) == { q \in [1..Cardinality(S) -> S] : \A a, b \in DOMAIN q : a # b => q[a] # q[b] }
\* A graph is a program exactly when its modules can be ordered dependencies first.
LoopFreeIffOrdered == HasLoop(P) <=> (\A o \in Perms(Mods(P)) : ~IsDepsFirst(P, o))
\* The order obtained by reversing the printed tree and keeping first occurrences is one.
RECURSIVE Uniq(_, _)
Uniq(s, seen) == IF s = <<>> THEN <<>> ELSE IF Head(s) \in seen THEN Uniq(Tail(s), seen) ELSE <<Head(s)>> \o Uniq(Tail(s), seen \cup {Head(s)})
TreeOrder(p) == LET t == Tree(p, 1, 0) IN Uniq(Reverse([k \in DOMAIN t |-> t[k][2]]), {})
TreeOrderDepsFirst == ~HasLoop(P) => IsDepsFirst(P, TreeOrder(P))
\* State: every module's counter only grows by one per bump and is one variable.
FanCounts == ~HasLoop(P) => LET f == FanRun(P) IN \A i \in Mods(P) :
                LET s == SelectSeq(f, LAMBDA x : x[1] = i) IN \A k \in DOMAIN s : s[k][2] = k
EmitCase == (Emit /\ phase = 1) => PrintT("CASE " \o ToJson(P))
=============================================================================
