-------------------------------- MODULE Adt --------------------------------
(* Vocabulary of operation histories: outputs are numbers, byte strings,
   null, a panic, or left open.                                            *)
EXTENDS Integers, Sequences, FiniteSets, TLC
Res(s, o) == [s |-> s, o |-> o]
N(n) == [n |-> n]
B(b) == [b |-> b]
Null == [z |-> TRUE]
Panic == [p |-> TRUE]
Open == [any |-> TRUE]
AtMost(n) == [le |-> n]
Bool(b) == N(IF b THEN 1 ELSE 0)
Zeros(n) == [i \in 1..n |-> 0]
Lesser(a, b) == IF a < b THEN a ELSE b
Greater(a, b) == IF a < b THEN b ELSE a
Cut(s, n) == SubSeq(s, 1, Lesser(n, Len(s)))
Rest(s, n) == SubSeq(s, n + 1, Len(s))
RECURSIVE Pow(_, _)
Pow(b, n) == IF n = 0 THEN 1 ELSE b * Pow(b, n - 1)
RECURSIVE Flat(_)
Flat(ss) == IF ss = <<>> THEN <<>> ELSE ss[1] \o Flat(Tail(ss))
=============================================================================
