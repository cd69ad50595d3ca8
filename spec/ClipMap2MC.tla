---------------------------- MODULE ClipMap2MC ----------------------------
(* The table behind map2: buckets that overflow into their neighbours, grown
   at three quarters full. Every history keeps it equal to the map that
   Clip specifies, whatever the hash function.                              *)
EXTENDS Integers, FiniteSets, Sequences, FiniteSetsExt, Functions, TLC
CONSTANTS NK, NV, MaxB, BS
Keys == 1..NK
VARIABLES h, nb, slots, abs
vars == <<h, nb, slots, abs>>
Empty == [k |-> 0, v |-> 0]
Table(n) == [p \in 0..(n * BS - 1) |-> Empty]
Pos(k, n, i) == (((h[k] % n) * BS) + i) % (n * BS)
Found(t, n, k) == { i \in 0..(n * BS - 1) : t[Pos(k, n, i)].k = k }
Free(t, n, k) == { i \in 0..(n * BS - 1) : t[Pos(k, n, i)].k = 0 }
Lookup(t, n, k) == IF Found(t, n, k) = {} THEN 0 ELSE t[Pos(k, n, Min(Found(t, n, k)))].v
Insert(t, n, k, v) ==
    LET p == IF Found(t, n, k) # {} THEN Pos(k, n, Min(Found(t, n, k))) ELSE Pos(k, n, Min(Free(t, n, k)))
    IN [t EXCEPT ![p] = [k |-> k, v |-> v]]
Count(t) == Cardinality({ p \in DOMAIN t : t[p].k # 0 })
RECURSIVE CopyAll(_, _, _, _)
CopyAll(t, p, u, n) == IF p \notin DOMAIN t THEN u
                       ELSE CopyAll(t, p + 1, IF t[p].k = 0 THEN u ELSE Insert(u, n, t[p].k, t[p].v), n)
Init == h \in [Keys -> 0..3] /\ nb = 1 /\ slots = Table(1) /\ abs = [k \in Keys |-> 0]
Set(k, v) == LET grow == (Count(slots) * 100) \div (nb * BS) > 75
                 n == IF grow THEN nb * 2 ELSE nb
                 t == IF grow THEN CopyAll(slots, 0, Table(n), n) ELSE slots
             IN /\ Found(t, n, k) # {} \/ Free(t, n, k) # {}
                /\ nb' = n /\ slots' = Insert(t, n, k, v)
                /\ abs' = [abs EXCEPT ![k] = v] /\ UNCHANGED h
Next == nb <= MaxB /\ \E k \in Keys, v \in 1..NV : Set(k, v)
Spec == Init /\ [][Next]_vars
Same == \A k \in Keys : Lookup(slots, nb, k) = abs[k]
Room == nb <= MaxB => \A k \in Keys, v \in 1..NV : ENABLED Set(k, v)
OnePerKey == \A k \in Keys : Cardinality(Found(slots, nb, k)) <= 1
=============================================================================
