------------------------------- MODULE MediaMC -------------------------------
(* Small pictures under every sequence of changes, small sound files and    *)
(* every beginning of them, small TIFF files, tables and series: what is    *)
(* written has the documented shape and reads back.                         *)
EXTENDS Media
CONSTANT Big
Upto(n, S) == UNION { [1..k -> S] : k \in 0..n }
Colors == {<<0, 0, 0, 0>>, <<255, 1, 2, 9>>}
Pics == UNION { [w : {w}, h : {h}, d : [1..(w * h) -> Colors]] : w \in 1..(IF Big THEN 3 ELSE 2), h \in 1..2 }
Steps == UNION { [1..k -> {-32768, -1, 32767}] : k \in {0, 2, 4} }
Ent == [tag : {258}, type : {2}, n : {0, 3, 4, 5}]
VARIABLES t, v
vars == <<t, v>>
Init == \/ t = "img" /\ v \in [i : Pics, p : Pics]
        \/ t = "wav" /\ v \in Steps
        \/ t = "tiff" /\ v \in [big : BOOLEAN, ds : Upto(2, Upto(2, Ent))]
        \/ t = "tab" /\ v \in [n : 1..3, v : Upto(4, {<<>>, <<97>>, <<98, 99, 100>>})]
        \/ t = "stats" /\ v \in Upto(4, {-3, 0, 7})
        \/ t = "rnd" /\ v = Zeros(8)
Next == \/ t = "img" /\ UNCHANGED t /\ v.i.w * v.i.h <= 6 /\
           \/ \E x \in 0..1, y \in 0..1 : v' = [v EXCEPT !.i = Paste(v.i, v.p, x, y)]
           \/ v.i.w * v.i.h <= 4 /\ Len(v.p.d) = 1 /\ v' = [v EXCEPT !.i = Explode(v.i, 2)]
        \/ t = "rnd" /\ UNCHANGED t /\ v' = Step64(v)
Spec == Init /\ [][Next]_vars
\* the generator is not followed for its whole period
Short == t = "rnd" => TLCGet("level") < 300

ImgLaw == t = "img" =>
    LET i == v.i IN
    /\ Len(i.d) = i.w * i.h
    /\ Paste(i, i, 0, 0) = i /\ Paste(i, v.p, i.w, 0) = i /\ Explode(i, 1) = i
    /\ Explode(Explode(i, 2), 3) = Explode(i, 6)
    /\ \A x \in 0..(i.w - 1), y \in 0..(i.h - 1) : LET j == Paste(i, v.p, x, y) IN
         /\ Px(j, x, y) = Px(v.p, 0, 0)
         /\ \A a \in 0..(i.w - 1), b \in 0..(i.h - 1) : Px(j, a, b) = (IF Has(v.p, a - x, b - y) THEN Px(v.p, a - x, b - y) ELSE Px(i, a, b))
    /\ LET f == Bmp(i) IN /\ Len(f) = 54 + 4 * ((3 * i.w + 3) \div 4) * i.h
                          /\ Int4(f, 3) = Len(f) /\ Int4(f, 19) = i.w /\ Int4(f, 23) = i.h
                          /\ \A x \in 0..(i.w - 1), y \in 0..(i.h - 1) :
                               LET o == 54 + 4 * ((3 * i.w + 3) \div 4) * (i.h - 1 - y) + 3 * x IN <<f[o + 3], f[o + 2], f[o + 1]>> = SubSeq(Px(i, x, y), 1, 3)
    /\ LET p == Palette(i) IN \A k \in 1..Len(i.d) : p[IndexIn(p, i.d[k]) + 1] = i.d[k]
\* a chunk of its name and its check sum, as every PNG file ends
ASSUME Iend == Chunk(<<73, 69, 78, 68>>, <<>>) = <<0, 0, 0, 0, 73, 69, 78, 68, 174, 66, 96, 130>>
ASSUME AdlerKnown == Adler(<<87, 105, 107, 105, 112, 101, 100, 105, 97>>) = <<17, 230, 3, 152>>

RECURSIVE ReadAll(_, _)
ReadAll(w, acc) == IF w.at >= Len(w.d) THEN acc ELSE ReadAll([w EXCEPT !.at = @ + Frame(w)], acc \o Pair(w, w.at))
WavLaw == t = "wav" =>
    LET f == WavHead \o Join([k \in 1..Len(v) |-> Pcm(v[k])]) IN
    /\ Wav(f).ok /\ ReadAll(Wav(f), <<>>) = [k \in 1..Len(v) |-> N(v[k])]
    /\ \A k \in 0..43 : ~Wav(Cut(f, k)).ok
    /\ LET g == SubSeq(f, 1, 36) \o LIST \o Le4(15) \o INFO \o <<73, 65, 82, 84>> \o Le4(3) \o <<1, 2, 3>> \o SubSeq(f, 37, Len(f)) IN Wav(g).ok /\ Wav(g).d = Wav(f).d
    /\ \A a \in -3..3 : LET k == 4096 * a + 1 IN Near(k) \in -32768..32767 /\ Near(-4096) = -32767 /\ Near(4096) = 32767

W2(big, n) == IF big THEN Reverse(Le2(n)) ELSE Le2(n)
W4(big, n) == IF big THEN Be4(n) ELSE Le4(n)
RECURSIVE DirsText(_, _, _)
DirsText(big, ds, at) ==
    IF ds = <<>> THEN W4(big, 0)
    ELSE W4(big, at + 4) \o W2(big, Len(ds[1])) \o Join([k \in 1..Len(ds[1]) |-> W2(big, ds[1][k].tag) \o W2(big, ds[1][k].type) \o W4(big, ds[1][k].n) \o W4(big, 2)])
         \o DirsText(big, Tail(ds), at + 6 + 12 * Len(ds[1]))
TiffText(x) == (IF x.big THEN <<77, 77, 0, 42>> ELSE <<73, 73, 42, 0>>) \o DirsText(x.big, x.ds, 4)
TiffLaw == t = "tiff" =>
    LET f == TiffText(v)
        r == Tiff(f)
    IN  /\ r.ok /\ Len(r.d) = Len(v.ds)
        /\ \A k \in 1..Len(v.ds) : /\ Len(r.d[k].e) = Len(v.ds[k])
                                   /\ \A j \in 1..Len(v.ds[k]) : r.d[k].e[j] = [tag |-> 258, type |-> 2, count |-> Be4(v.ds[k][j].n), value |-> Be4(2)]
        /\ \A n \in 0..(Len(f) - 1) : ~Tiff(Cut(f, n)).ok
        \* a directory that is its own successor
        /\ (v.ds # <<>>) => ~Tiff(Cut(f, Len(f) - 4) \o W4(v.big, 8)).ok

TabLaw == t = "tab" =>
    LET s == DoTab(v, [op |-> "print", a |-> <<>>]).o[1].b
        full == Len(v.v) \div v.n
        ends == {k \in 1..Len(s) : s[k] = 10}
    IN  /\ Cardinality(ends) = full
        /\ (full > 1) => \A a \in ends, b \in ends : ((a - b) % Min(ends)) = 0
StatsLaw == t = "stats" =>
    /\ \A q \in 0..100 : v # <<>> => \E k \in 1..Len(v) : v[k] = Perc(v, q)
    /\ v # <<>> => /\ Perc(v, 0) = Min({v[k] : k \in 1..Len(v)}) /\ Perc(v, 100) = Max({v[k] : k \in 1..Len(v)})
    /\ \A q \in 0..99 : v # <<>> => Perc(v, q) <= Perc(v, q + 1)
    /\ \A k \in 1..(Len(v) - 1) : Sorted(v)[k] <= Sorted(v)[k + 1]
RndLaw == t = "rnd" =>
    /\ \A k \in 1..8 : v[k] \in 0..255
    /\ LET b == Out32(v) IN /\ Len(b) = 32 /\ Mod32(b, 256) = Bytes32(b)[4] /\ Mod32(b, 65536) = 256 * Bytes32(b)[3] + Bytes32(b)[4]
=============================================================================
