------------------------------- MODULE DocsMC -------------------------------
(* Small requests, documents and subtitle files: a request that is written  *)
(* reads back and none of its beginnings is a request; every walk over every*)
(* small XML tree keeps its place; subtitle blocks read back as printed.    *)
EXTENDS Docs, Json
CONSTANT Big
Upto(n, S) == UNION { [1..k -> S] : k \in 0..n }
Paths == {<<47>>, <<47, 97>>, <<47, 97, 47, 98, 46, 99>>}
Kvs == { <<n, v>> : n \in {<<97>>, <<98, 49>>}, v \in {<<>>, <<97>>, <<32, 38>>, <<255, 47>>} }
Hds == { <<n, v>> : n \in {<<72>>, <<65, 45, 98>>}, v \in {<<>>, <<120>>, <<58, 32>>} }
Reqs == [m : 1..3, path : Paths, ps : Upto(IF Big THEN 2 ELSE 1, Kvs), hs : Upto(2, Hds)]

Tag(n, body) == IF body = <<0>> THEN <<60>> \o n \o <<47, 62>> ELSE <<60>> \o n \o <<62>> \o body \o <<60, 47>> \o n \o <<62>>
T1 == { Tag(n, b) : n \in {<<97>>, <<98>>}, b \in {<<>>, <<0>>} }
F(S) == {<<>>} \cup S \cup { s \o t : s, t \in S }
T2 == { Tag(<<97>>, b) : b \in F(T1) } \cup T1
T3 == { Tag(<<98>>, b) : b \in F(IF Big THEN T2 ELSE T1) \cup { Tag(<<97>>, t) : t \in T2 } }
Docs == { <<60, 63, 120, 63, 62>> \o t : t \in T2 \cup T3 }

Txt == {<<97>>, <<49>>, <<97, 10, 98>>, <<97, 10, 10, 55>>, <<50, 10, 97>>}
Two(n) == <<48 + (n \div 10), 48 + (n % 10)>>
Pos(ms) == Two(ms \div 3600000) \o <<58>> \o Two((ms \div 60000) % 60) \o <<58>> \o Two((ms \div 1000) % 60) \o <<44, 48 + ((ms % 1000) \div 100)>> \o Two(ms % 100)
Block(b) == Dec(b.i) \o <<10>> \o Pos(b.f) \o <<32>> \o Arrow \o <<32>> \o Pos(b.t) \o <<10>> \o b.s \o <<10, 10>>
Blocks == [i : {1, 10}, f : {0, 61001, 359999999}, t : {90000}, s : Txt]
Subs2 == Upto(2, Blocks)

VARIABLES t, v
vars == <<t, v>>
Init == \/ t = "http" /\ v \in Reqs
        \/ t = "xml" /\ v \in { DoXml([x |-> 0], [op |-> "open", a |-> <<B(d)>>]).s : d \in Docs }
        \/ t = "srt" /\ v \in Subs2
Go(o) == DoXml(v, [op |-> o, a |-> <<>>])
Next == /\ t = "xml" /\ UNCHANGED t
        /\ \E o \in {"enter", "next", "leave"} : v' = Go(o).s
Spec == Init /\ [][Next]_vars

HttpLaw == t = "http" =>
    LET s == Text(v)
        u == v.path \o Flat([k \in 1..Len(v.ps) |-> <<IF k = 1 THEN 63 ELSE 38>> \o v.ps[k][1] \o <<61>> \o UrlAll(v.ps[k][2])])
        q == Rest(u, Len(v.path) + 1)
    IN  /\ Request(s) = <<N(1), B(Methods[v.m]), B(u), B(H10), B(v.path), B(q), B(Rest(v.path, LastSlash(v.path))), N(Len(v.hs))>> \o Pairs(v.hs)
        /\ Request(s \o <<71, 69, 84, 32>>) = Request(s)
        /\ \A k \in 0..(Len(s) - 1) : Request(Cut(s, k)) = <<N(0)>>
\* the place is a place of the tree, and leaving after entering is the same as going on
XmlPlace == t = "xml" => /\ v.cur # 0 => v.d.sk[v.cur] = v.st
                         /\ \A k \in 1..Len(v.st) : v.d.t[v.st[k]].k = "open"
XmlLaw == t = "xml" => LET e == Go("enter") IN
    e.o = <<N(1)>> => DoXml(e.s, [op |-> "leave", a |-> <<>>]).s = Go("next").s
\* the tree is finite: going on ends, leaving goes up
XmlDown == [][t = "xml" => (v'.cur = 0 \/ v.cur = 0 \/ v'.cur > v.cur) ]_vars
RECURSIVE ReadAll(_, _)
ReadAll(s, acc) == LET r == DoSrt(s, [op |-> "read", a |-> <<>>]) IN IF r.o = <<N(0)>> THEN acc ELSE ReadAll(r.s, Append(acc, r.o))
SrtLaw == t = "srt" =>
    LET f == Flat([k \in 1..Len(v) |-> Block(v[k])])
        r == ReadAll(DoSrt([x |-> 0], [op |-> "open", a |-> <<B(f)>>]).s, <<>>)
    IN  /\ Len(r) = Len(v)
        /\ \A k \in 1..Len(v) : /\ r[k][2] = N(v[k].i) /\ r[k][4] = B(v[k].s) /\ r[k][5] = N(v[k].f) /\ r[k][6] = N(v[k].t)
=============================================================================
