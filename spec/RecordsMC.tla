------------------------------ MODULE RecordsMC ------------------------------
(* Small tables and bencode values: what is written reads back.              *)
EXTENDS Records, Json
CONSTANT Big
A == {97, 44, 34, 10}
V2 == UNION { [1..n -> A] : n \in 0..(IF Big THEN 3 ELSE 2) }
V1 == {<<>>, <<97>>, <<44>>, <<34>>, <<10>>, <<13, 10>>, <<34, 34>>}
Tables == { <<r>> : r \in UNION { [1..n -> V2] : n \in 1..2 } } \cup { <<q, r>> : q, r \in UNION { [1..n -> V1] : n \in 1..2 } }
Leaf == {<<105, 48, 101>>, <<105, 45, 55, 101>>, <<48, 58>>, <<49, 58, 101>>, <<50, 58, 105, 49>>, <<49, 58, 255>>}
L1 == Leaf \cup { <<108>> \o a \o b \o <<101>> : a, b \in Leaf \cup {<<>>} } \cup { <<100>> \o a \o b \o <<101>> : a \in {<<49, 58, 101>>, <<48, 58>>}, b \in Leaf }
Trees == L1 \cup { <<108>> \o a \o b \o <<101>> : a, b \in (IF Big THEN L1 ELSE Leaf \cup { <<108>> \o a \o <<101>> : a \in Leaf }) }
VARIABLE x
Init == x \in [t : {"csv"}, v : Tables] \cup [t : {"ben"}, v : Trees]
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
RowText(r) == Flat([k \in 1..Len(r) |-> (IF k > 1 THEN <<44>> ELSE <<>>) \o CsvQuote(r[k])]) \o <<10>>
FileText(t) == Flat([k \in 1..Len(t) |-> RowText(t[k])])
S0 == Start("csv")
RECURSIVE ReadRow(_, _)
ReadRow(s, acc) == LET r == CsvVal(s) IN IF r.st = "val" THEN ReadRow(r.s, Append(acc, r.v)) ELSE [s |-> r.s, v |-> acc, st |-> r.st]
RECURSIVE ReadAll(_, _)
ReadAll(s, acc) == IF s.d = <<>> THEN acc
                   ELSE LET r == ReadRow(s, <<>>) q == DoCsv(r.s, [op |-> "next", a |-> <<>>]) IN
                        IF r.st # "none" THEN <<"bad">> ELSE ReadAll(q.s, Append(acc, r.v))
CsvLaw == x.t = "csv" => ReadAll([S0 EXCEPT !.d = FileText(x.v)], <<>>) = x.v
\* a value delimits itself: nothing shorter is a value, and what follows is not looked at
BenLaw == x.t = "ben" => /\ Whole(x.v, 10) = [st |-> "ok", n |-> Len(x.v)]
                         /\ Whole(x.v \o <<101, 49>>, 10) = [st |-> "ok", n |-> Len(x.v)]
                         /\ \A k \in 0..(Len(x.v) - 1) : Whole(Cut(x.v, k), 10).st = "bad"
EmitRes == PrintT("RES " \o ToJson(x))
=============================================================================
