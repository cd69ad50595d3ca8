------------------------------ MODULE ClipMC ------------------------------
(* Laws of the containers over all histories up to Depth, and the histories
   themselves for replay. K: the kind.                                      *)
EXTENDS Clip, Json, TLC
CONSTANTS K, Depth
VARIABLES s, hist
Keys == {<<>>, <<1>>, <<1, 2>>, <<2, 1>>}
Vals == {<<7>>, <<8>>}
Ops == CASE K = "map" -> [op : {"set"}, k : Keys, v : Vals] \cup [op : {"get"}, k : Keys] \cup {[op |-> "iter", n |-> 1], [op |-> "size"]}
         [] K \in {"map2", "st"} -> [op : {"set"}, k : Keys, v : Vals \cup {<<>>, <<7, 9, 9>>}] \cup [op : {"get"}, k : Keys]
         [] K = "vec" -> [op : {"push"}, v : Vals] \cup {[op |-> "alloc"], [op |-> "len"]} \cup [op : {"get"}, i : 0..(Len(s) - 1)] \cup [op : {"put"}, i : 0..(Len(s) - 1), v : {<<9>>}]
         [] K = "buf" -> [op : {"write"}, v : {<<>>, <<1>>, <<2, 3>>, <<4, 5, 6>>}] \cup [op : {"read"}, n : 0..4] \cup {[op |-> "size"]}
         [] OTHER -> [op : {"append"}, i : {-1, 1, 2}] \cup [op : {"remove"}, i : {1, 2, 3}] \cup {[op |-> "list"]}
Init == s = <<>> /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E p \in Ops : s' = Do(K, s, p, 1).s /\ hist' = Append(hist, p)
Spec == Init /\ [][Next]_<<s, hist>>
\* keys are unique and map to the last value set
Last(k) == LET S == { j \in 1..Len(hist) : hist[j].op = "set" /\ hist[j].k = k } IN
           IF S = {} THEN {} ELSE {hist[CHOOSE j \in S : \A m \in S : m <= j].v}
MapLaw == K \in {"map", "map2", "st"} =>
          /\ \A k \in Keys : Cardinality(At(s, k)) <= 1 /\ { s[j][2] : j \in At(s, k) } = Last(k)
RECURSIVE Cat(_, _)
Cat(h, o) == IF h = <<>> THEN <<>> ELSE (IF h[1].op = o THEN h[1].v ELSE <<>>) \o Cat(Tail(h), o)
RECURSIVE Outs(_, _)
Outs(h, rs) == IF h = <<>> THEN <<>> ELSE (IF h[1].op = "read" THEN rs[1][1].b ELSE <<>>) \o Outs(Tail(h), Tail(rs))
\* what was read and what is left is what was written
Fifo == K = "buf" => Outs(hist, Run(K, <<>>, hist, 1, <<>>)) \o s = Cat(hist, "write")
VecLaw == K = "vec" => Len(s) = Len(SelectSeq(hist, LAMBDA p : p.op \in {"push", "alloc"}))
EmitRes == Len(hist) = Depth => PrintT("RES " \o ToJson([ps |-> hist, o |-> Run(K, <<>>, hist, 1, <<>>)]))
=============================================================================
