-------------------------------- MODULE Media --------------------------------
(* Pictures, sound, TIFF files, tables, statistics and random numbers of     *)
(* lib: image, formats/bmp, ppm, png, wav, tiff, table, stats, rnd.          *)
EXTENDS Adt, Bitwise, SequencesExt, FiniteSetsExt
NJ == <<N(-1)>>
Seq1(n) == [k \in 1..n |-> k]
Le2(n) == <<n % 256, (n \div 256) % 256>>
Le4(n) == <<n % 256, (n \div 256) % 256, (n \div 65536) % 256, n \div 16777216>>
Be4(n) == Reverse(Le4(n))
Ones == <<255, 255, 255, 255>>
Join(ss) == FoldLeft(LAMBDA a, x : a \o x, <<>>, ss)

-----------------------------------------------------------------------------
(* Pictures: rows of <<red, green, blue, transparency>>, the top row first. *)
Black == <<0, 0, 0, 0>>
Blank(w, h) == [w |-> w, h |-> h, d |-> [k \in 1..(w * h) |-> Black]]
Has(i, x, y) == x \in 0..(i.w - 1) /\ y \in 0..(i.h - 1)
Px(i, x, y) == i.d[y * i.w + x + 1]
Xof(i, k) == (k - 1) % i.w
Yof(i, k) == (k - 1) \div i.w
Mix16(a, b, k) == (a * (16 - k) + b * k) \div 16
Explode(i, n) == [w |-> i.w * n, h |-> i.h * n,
                  d |-> [k \in 1..(i.w * n * i.h * n) |-> Px(i, ((k - 1) % (i.w * n)) \div n, ((k - 1) \div (i.w * n)) \div n)]]
Paste(i, p, x, y) == [i EXCEPT !.d = [k \in 1..Len(i.d) |->
    LET a == Xof(i, k) - x
        b == Yof(i, k) - y
    IN IF Has(p, a, b) THEN Px(p, a, b) ELSE i.d[k]]]
Bars == << <<128, 128, 128, 0>>, <<192, 192, 192, 0>>, <<255, 255, 0, 0>>, <<0, 255, 255, 0>>, <<0, 255, 0, 0>>, <<255, 0, 255, 0>>, <<255, 0, 0, 0>>, <<0, 0, 255, 0>> >>
Test(i) == LET w == Greater(1, i.w \div 8) IN [i EXCEPT !.d = [k \in 1..Len(i.d) |-> Bars[((Xof(i, k) \div w) % 8) + 1]]]
MixC(a, b, k, n) == [j \in 1..3 |-> (a[j] * (n - k) + b[j] * k) \div n] \o <<0>>
\* the first colour is for values up to the width, the others repeat
MapColor(cs, w, v) ==
    IF v <= w THEN MixC(cs[1], cs[2], v, w)
    ELSE LET n == Len(cs) - 1
             a == ((v - w) \div w) % n
         IN MixC(cs[2 + a], cs[2 + ((a + 1) % n)], (v - w) % w, w)

Bmp(i) ==
    LET pad == (4 - ((i.w * 3) % 4)) % 4
        size == i.h * (i.w * 3 + pad)
        row(y) == Join([x \in 1..i.w |-> LET c == Px(i, x - 1, y) IN <<c[3], c[2], c[1]>>]) \o Zeros(pad)
    IN <<66, 77>> \o Le4(54 + size) \o Zeros(4) \o Le4(54) \o Le4(40) \o Le4(i.w) \o Le4(i.h) \o Le2(1) \o Le2(24) \o Zeros(4)
       \o Le4(size) \o Zeros(16) \o Join([y \in 1..i.h |-> row(i.h - y)])
RECURSIVE Dec(_)
Dec(n) == IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
Ppm(i) == <<80, 54, 10>> \o Dec(i.w) \o <<32>> \o Dec(i.h) \o <<10, 50, 53, 53, 10>> \o Join([k \in 1..Len(i.d) |-> SubSeq(i.d[k], 1, 3)])

(* PNG.  A check sum is a pair of halves.                                   *)
Half(c) == <<c[1] \div 2, ((c[1] % 2) * 32768) + (c[2] \div 2)>>
Crc1(c) == IF (c[2] % 2) = 1 THEN <<Half(c)[1] ^^ 60856, Half(c)[2] ^^ 33568>> ELSE Half(c)
Crc8(b) == FoldLeft(LAMBDA c, k : Crc1(c), <<0, b>>, Seq1(8))
CrcTable == [b \in 0..255 |-> Crc8(b)]
CrcStep(c, b) == LET t == CrcTable[(c[2] % 256) ^^ b] IN <<t[1] ^^ (c[1] \div 256), t[2] ^^ (((c[1] % 256) * 256) + (c[2] \div 256))>>
Crc(bs) == LET c == FoldLeft(CrcStep, <<65535, 65535>>, bs) IN <<(65535 - c[1]) \div 256, (65535 - c[1]) % 256, (65535 - c[2]) \div 256, (65535 - c[2]) % 256>>
Chunk(name, bs) == Be4(Len(bs)) \o name \o bs \o Crc(name \o bs)
Adler(bs) == LET a == FoldLeft(LAMBDA s, b : LET x == (s[1] + b) % 65521 IN <<x, (s[2] + x) % 65521>>, <<1, 0>>, bs)
             IN <<a[2] \div 256, a[2] % 256, a[1] \div 256, a[1] % 256>>
\* the first 256 colours in order of appearance
Palette(i) == FoldLeft(LAMBDA p, c : IF Len(p) = 256 \/ (\E k \in 1..Len(p) : p[k] = c) THEN p ELSE Append(p, c), <<>>, i.d)
IndexIn(p, c) == LET ks == {k \in 1..Len(p) : p[k] = c} IN IF ks = {} THEN 255 ELSE Min(ks) - 1
Luma(c) == c[1] * 2989 + c[2] * 5870 + c[3] * 1140
Gray(c) == Luma(c) \div 10000
PngPx(mode, p, c) ==
    CASE mode = 0 -> <<Gray(c)>>
      [] mode = 2 -> SubSeq(c, 1, 3)
      [] mode = 3 -> <<IndexIn(p, c)>>
      [] mode = 4 -> <<Gray(c), c[4]>>
      [] OTHER -> c
Png(i, mode) ==
    LET p == IF mode = 3 THEN Palette(i) ELSE <<>>
        pp == p \o [k \in 1..(IF mode = 3 THEN Greater(0, 16 - Len(p)) ELSE 0) |-> Black]
        line(y) == <<0>> \o Join([x \in 1..i.w |-> PngPx(mode, p, Px(i, x - 1, y - 1))])
        ls == [y \in 1..i.h |-> line(y)]
        n == Len(ls[1])
        data == <<120, 218>> \o Join([y \in 1..i.h |-> <<IF y = i.h THEN 1 ELSE 0>> \o Le2(n) \o Le2(65535 - n) \o ls[y]]) \o Adler(Join(ls))
    IN <<137, 80, 78, 71, 13, 10, 26, 10>>
       \o Chunk(<<73, 72, 68, 82>>, Be4(i.w) \o Be4(i.h) \o <<8, mode, 0, 0, 0>>)
       \o (IF mode = 3 THEN Chunk(<<80, 76, 84, 69>>, Join([k \in 1..Len(pp) |-> SubSeq(pp[k], 1, 3)])) \o Chunk(<<116, 82, 78, 83>>, [k \in 1..Len(pp) |-> pp[k][4]]) ELSE <<>>)
       \o Chunk(<<73, 68, 65, 84>>, data) \o Chunk(<<73, 69, 78, 68>>, <<>>)

Nums(c) == [k \in 1..Len(c) |-> N(c[k])]
Col(p, k) == [j \in 1..4 |-> p.a[k + j - 1].n]
DoImg(s, p) ==
    LET i == s.i
        x == p.a[1].n
        y == p.a[2].n
        at == y * i.w + x + 1
    IN
    CASE p.op = "make" -> Res([s EXCEPT !.i = Blank(x, y)], <<N(1)>>)
      [] p.op = "keep" -> Res([p |-> i, i |-> Blank(x, y)], <<N(1)>>)
      [] p.op = "size" -> Res(s, <<N(i.w), N(i.h)>>)
      [] p.op = "set" -> IF Has(i, x, y) THEN Res([s EXCEPT !.i.d[at] = Col(p, 3)], <<N(1)>>) ELSE Res(s, <<Panic>>)
      [] p.op = "get" -> Res(s, IF Has(i, x, y) THEN Nums(Px(i, x, y)) ELSE <<Panic>>)
      [] p.op = "fill" -> Res([s EXCEPT !.i.d = [k \in 1..Len(i.d) |-> Col(p, 1)]], <<N(1)>>)
      [] p.op = "clear" -> Res([s EXCEPT !.i = Blank(i.w, i.h)], <<N(1)>>)
      [] p.op = "blend" -> IF Has(i, x, y)
                           THEN LET o == Px(i, x, y) IN Res([s EXCEPT !.i.d[at] = [j \in 1..3 |-> Mix16(o[j], p.a[2 + j].n, p.a[6].n)] \o <<o[4]>>], <<N(1)>>)
                           ELSE Res(s, <<Panic>>)
      [] p.op = "apply" -> Res([s EXCEPT !.i.d = [k \in 1..Len(i.d) |-> <<255 - i.d[k][1], i.d[k][3], i.d[k][2], i.d[k][4]>>]], <<N(1)>>)
      [] p.op = "explode" -> Res([s EXCEPT !.i = Explode(i, x)], <<N(1)>>)
      [] p.op = "paste" -> Res([s EXCEPT !.i = Paste(i, s.p, x, y)], <<N(1)>>)
      [] p.op = "test" -> Res([s EXCEPT !.i = Test(i)], <<N(1)>>)
      [] p.op = "dump" -> Res(s, <<N(i.w), N(i.h), B(Join(i.d))>>)
      [] p.op = "bmp" -> Res(s, <<B(Bmp(i))>>)
      [] p.op = "ppm" -> Res(s, <<B(Ppm(i))>>)
      [] p.op = "png" -> Res(s, IF x \in {0, 4} /\ (\E k \in 1..Len(i.d) : Luma(i.d[k]) # 0 /\ (Luma(i.d[k]) % 10000) \in {0, 9999}) THEN NJ ELSE <<B(Png(i, x))>>)
      [] p.op = "mix" -> Res(s, Nums(MixC(Col(p, 1), Col(p, 5), p.a[9].n, 16)))
      [] p.op = "map" -> Res(s, Nums(MapColor([k \in 1..(Len(p.a[1].b) \div 3) |-> SubSeq(p.a[1].b, 3 * k - 2, 3 * k) \o <<0>>], p.a[2].n, p.a[3].n)))

-----------------------------------------------------------------------------
(* WAV                                                                      *)
RIFF == <<82, 73, 70, 70>>
WAVE == <<87, 65, 86, 69>>
FMT == <<102, 109, 116, 32>>
DATA == <<100, 97, 116, 97>>
LIST == <<76, 73, 83, 84>>
INFO == <<73, 78, 70, 79>>
PAD == <<80, 65, 68, 32>>
Bound(v, lo, hi) == IF v < lo THEN lo ELSE IF v > hi THEN hi ELSE v
Pcm(v) == Le2((v + 65536) % 65536)
\* the sample nearest to k / 4096
Near(k) == Bound((2 * k * 32767 + 4096) \div 8192, -32768, 32767)
WavHead == RIFF \o Ones \o WAVE \o FMT \o Le4(16) \o Le2(1) \o Le2(2) \o Le4(44100) \o Le4(176400) \o Le2(4) \o Le2(16) \o DATA \o Ones
Int2(b, k) == b[k] + 256 * b[k + 1]
\* four bytes as a number; anything above 2^24 is more than there is
Int4(b, k) == IF b[k + 3] > 0 THEN 16777216 ELSE b[k] + 256 * b[k + 1] + 65536 * b[k + 2]
Begins(s, p) == Len(p) <= Len(s) /\ SubSeq(s, 1, Len(p)) = p
\* the entries of a list that is n bytes long; b begins with the first entry
RECURSIVE Infos(_, _)
Infos(b, n) ==
    IF n = 0 THEN [ok |-> TRUE, rest |-> b]
    ELSE IF n < 8 \/ Len(b) < 8 THEN [ok |-> FALSE]
    ELSE LET l == Int4(b, 5) IN
         IF l > n - 8 \/ l > 999 THEN [ok |-> FALSE]
         ELSE IF (l % 2) = 1 /\ n - 8 - l > 0 THEN Infos(Rest(b, 9 + l), n - 9 - l) ELSE Infos(Rest(b, 8 + l), n - 8 - l)
Wav(b) ==
    IF ~(Len(b) >= 44 /\ Begins(b, RIFF) /\ SubSeq(b, 9, 12) = WAVE /\ SubSeq(b, 13, 16) = FMT /\ Int4(b, 17) = 16) THEN [ok |-> FALSE]
    ELSE LET fm == Int2(b, 21)
             ch == Int2(b, 23)
             bits == Int2(b, 35)
             r0 == Rest(b, 36)
             l == Int4(r0, 5)
             inf == IF ~Begins(r0, LIST) THEN [ok |-> TRUE, rest |-> r0]
                    ELSE IF Len(r0) < 12 \/ l < 4 \/ ~(SubSeq(r0, 9, 12) = INFO) THEN [ok |-> FALSE]
                    ELSE Infos(Rest(r0, 12), l - 4)
             r1 == inf.rest
             r2 == IF Begins(r1, PAD) /\ Len(r1) >= 8 THEN Rest(r1, 8 + Int4(r1, 5)) ELSE r1
         IN IF fm # 1 \/ ch \notin {1, 2} \/ bits \notin {16, 24} THEN [ok |-> FALSE]
            ELSE IF ~inf.ok THEN [ok |-> FALSE]
            ELSE IF ~Begins(r2, DATA) \/ Len(r2) < 8 THEN [ok |-> FALSE]
            ELSE [ok |-> TRUE, ch |-> ch, freq |-> Int4(b, 25), bits |-> bits, d |-> Cut(Rest(r2, 8), Int4(r2, 5)), at |-> 0, cut |-> Int4(r2, 5) < Len(r2) - 8]
Frame(w) == w.ch * (w.bits \div 8)
Sample(w, k) == IF w.bits = 16 THEN LET v == Int2(w.d, k) IN IF v >= 32768 THEN v - 65536 ELSE v
                ELSE LET v == Int2(w.d, k) + 65536 * w.d[k + 2] IN IF v >= 8388608 THEN v - 16777216 ELSE v
Pair(w, at) == <<N(Sample(w, at + 1)), N(Sample(w, at + 1 + (IF w.ch = 2 THEN w.bits \div 8 ELSE 0)))>>
DoWav(s, p) ==
    CASE p.op = "begin" -> Res([out |-> WavHead], <<N(1)>>)
      [] p.op = "raw" -> Res([s EXCEPT !.out = @ \o Pcm(Bound(p.a[1].n, -32768, 32767)) \o Pcm(Bound(p.a[2].n, -32768, 32767))], <<N(1)>>)
      [] p.op = "frac" -> Res([s EXCEPT !.out = @ \o Pcm(Near(p.a[1].n)) \o Pcm(Near(p.a[2].n))], <<N(1)>>)
      [] p.op = "bytes" -> Res(s, <<B(s.out)>>)
      [] p.op = "open" -> LET w == Wav(p.a[1].b) IN
                          IF ~w.ok THEN Res(s, <<Panic>>)
                          ELSE IF (Len(w.d) % Frame(w)) # 0 THEN Res(s, NJ)
                          ELSE Res(w, <<N(w.ch), N(w.freq), N(w.bits)>>)
      [] p.op = "more" -> Res(s, <<Bool(s.at < Len(s.d))>>)
      [] p.op = "read" -> IF s.at >= Len(s.d) THEN Res(s, NJ) ELSE Res([s EXCEPT !.at = @ + Frame(s)], Pair(s, s.at))
      [] p.op = "load" -> LET w == Wav(p.a[1].b) IN
                          IF ~w.ok THEN Res(s, <<Panic>>)
                          ELSE IF (Len(w.d) % Frame(w)) # 0 THEN Res(s, NJ)
                          ELSE Res(s, <<N(w.freq), N(Len(w.d) \div Frame(w))>> \o Join([k \in 1..(Len(w.d) \div Frame(w)) |-> Pair(w, (k - 1) * Frame(w))]))

-----------------------------------------------------------------------------
(* TIFF.  Numbers are four bytes, the most significant first.               *)
Num(b, at, n, big) == LET q == SubSeq(b, at + 1, at + n) IN Zeros(4 - n) \o (IF big THEN q ELSE Reverse(q))
Small(q) == IF q[1] > 0 THEN 16777216 ELSE q[2] * 65536 + q[3] * 256 + q[4]
Bad == [ok |-> FALSE]
RECURSIVE Dirs(_, _, _, _)
\* the directories from the one whose address is at the given place
Dirs(b, big, at, acc) ==
    IF at + 4 > Len(b) THEN Bad
    ELSE LET pos == Small(Num(b, at, 4, big))
             n == IF pos + 2 > Len(b) THEN 0 ELSE Small(Num(b, pos, 2, big))
             e(k) == LET o == pos + 2 + 12 * (k - 1) IN
                     [tag |-> Small(Num(b, o, 2, big)), type |-> Small(Num(b, o + 2, 2, big)), count |-> Num(b, o + 4, 4, big), value |-> Num(b, o + 8, 4, big)]
         IN IF pos = 0 THEN [ok |-> TRUE, d |-> acc]
            ELSE IF pos + 2 > Len(b) \/ (\E k \in 1..Len(acc) : acc[k].pos = pos) THEN Bad
            ELSE IF pos + 2 + 12 * n > Len(b) THEN Bad
            ELSE Dirs(b, big, pos + 2 + 12 * n, Append(acc, [pos |-> pos, e |-> [k \in 1..n |-> e(k)]]))
Tiff(b) ==
    IF Len(b) < 8 THEN Bad
    ELSE IF SubSeq(b, 1, 2) \notin {<<73, 73>>, <<77, 77>>} THEN Bad
    ELSE LET big == b[1] = 77 IN
         IF Num(b, 2, 2, big) # <<0, 0, 0, 42>> THEN Bad ELSE Dirs(b, big, 4, <<>>)
ShowE(e) == <<N(e.tag), N(e.type), B(e.count), B(e.value)>>
DoTiff(s, p) ==
    CASE p.op = "parse" -> LET b == p.a[1].b
                               t == Tiff(b) IN
                           IF ~t.ok THEN Res(s, <<Panic>>)
                           ELSE Res([b |-> b, big |-> b[1] = 77, d |-> t.d],
                                    <<N(Len(t.d))>> \o Join([k \in 1..Len(t.d) |-> <<N(Len(t.d[k].e))>> \o Join([j \in 1..Len(t.d[k].e) |-> ShowE(t.d[k].e[j])])]))
      [] p.op = "str" -> IF p.a[1].n > Len(s.d) THEN Res(s, NJ)
                         ELSE IF p.a[2].n > Len(s.d[p.a[1].n].e) THEN Res(s, NJ)
                         ELSE LET e == s.d[p.a[1].n].e[p.a[2].n]
                                  n == Small(e.count)
                                  o == Small(e.value)
                              IN IF n <= 4 THEN Res(s, <<B(IF s.big THEN SubSeq(e.value, 1, n) ELSE SubSeq(Reverse(e.value), 1, n))>>)
                                 ELSE IF o + n > Len(s.b) THEN Res(s, <<Panic>>)
                                 ELSE Res(s, <<B(SubSeq(s.b, o + 1, o + n))>>)
      [] p.op = "at" -> Res(s, IF p.a[1].n + p.a[2].n > Len(s.b) THEN <<Panic>> ELSE <<B(Num(s.b, p.a[1].n, p.a[2].n, s.big))>>)

-----------------------------------------------------------------------------
(* Tables: columns are as wide as their longest value and two spaces.       *)
Width(s, c) == Max({0} \cup {Len(s.v[k]) + 2 : k \in {j \in 1..Len(s.v) : ((j - 1) % s.n) = c}})
DoTab(s, p) ==
    CASE p.op = "cols" -> Res([n |-> p.a[1].n, v |-> <<>>], <<N(1)>>)
      [] p.op = "push" -> Res([s EXCEPT !.v = Append(@, p.a[1].b)], <<N(1)>>)
      [] p.op = "print" -> LET ws == [c \in 0..(s.n - 1) |-> Width(s, c)] IN
            Res(s, <<B(Join([k \in 1..Len(s.v) |-> s.v[k] \o [j \in 1..(ws[(k - 1) % s.n] - Len(s.v[k])) |-> 32] \o (IF (k % s.n) = 0 THEN <<10>> ELSE <<>>)]))>>)

(* Statistics of whole numbers. *)
Sorted(v) == SortSeq(v, LAMBDA a, b : a < b)
Sum(v) == FoldLeft(LAMBDA a, b : a + b, 0, v)
Perc(v, q) == IF q < 0 \/ q > 100 \/ v = <<>> THEN 0 ELSE Sorted(v)[Lesser(Len(v), ((Len(v) * q) \div 100) + 1)]
DoStats(s, p) ==
    CASE p.op = "add" -> Res([v |-> Append(s.v, p.a[1].n)], <<N(1)>>)
      [] p.op = "count" -> Res(s, <<N(Len(s.v))>>)
      [] p.op = "sum" -> Res(s, <<N(Sum(s.v))>>)
      [] p.op = "min" -> Res(s, IF s.v = <<>> THEN <<Open>> ELSE <<N(Min({s.v[k] : k \in 1..Len(s.v)}))>>)
      [] p.op = "max" -> Res(s, IF s.v = <<>> THEN <<Open>> ELSE <<N(Max({s.v[k] : k \in 1..Len(s.v)}))>>)
      [] p.op = "perc" -> Res(s, <<N(Perc(s.v, p.a[1].n))>>)
      [] p.op = "med" -> Res(s, <<N(Perc(s.v, 50))>>)
      [] p.op = "avg" -> Res(s, IF s.v = <<>> THEN <<Open>> ELSE <<N(Sum(s.v))>>)     \* times the count

(* Random numbers: 64 bits of state in bytes, the least significant first.  *)
Mul == <<125, 125, 225, 88, 52, 147, 96, 155>>
Inc == <<237, 247, 205, 236, 46, 35, 55, 215>>
Step64(v) ==
    LET col(k) == Inc[k] + Sum([j \in 1..k |-> v[j] * Mul[k + 1 - j]])
        r == FoldLeft(LAMBDA a, k : LET t == a.c + col(k) IN [o |-> Append(a.o, t % 256), c |-> t \div 256], [o |-> <<>>, c |-> 0], Seq1(8))
    IN r.o
P2 == <<1, 2, 4, 8, 16, 32, 64, 128>>
Bit(v, k) == (v[(k \div 8) + 1] \div P2[(k % 8) + 1]) % 2        \* bit k of 0..63
\* the 32 bits of the result, the most significant first
Out32(v) == LET sh == 29 - (v[8] \div 32) IN [k \in 1..32 |-> IF sh + 32 - k > 63 THEN 0 ELSE Bit(v, sh + 32 - k)]
Mod32(bits, n) == FoldLeft(LAMBDA a, b : (2 * a + b) % n, 0, bits)
Bytes32(bits) == [j \in 1..4 |-> FoldLeft(LAMBDA a, b : 2 * a + b, 0, SubSeq(bits, 8 * j - 7, 8 * j))]
DoRnd(s, p) ==
    LET v == Step64(s.v)
        bits == Out32(v)
        fs == [k \in 1..Len(p.a) |-> p.a[k].n]
    IN
    CASE p.op = "seed" -> Res([v |-> p.a[1].b], <<N(1)>>)
      [] p.op = "intn" -> IF p.a[1].n = 0 THEN Res(s, <<Panic>>) ELSE Res([v |-> v], <<N(Mod32(bits, p.a[1].n))>>)
      [] p.op = "u" -> Res([v |-> v], <<N(1), B(Bytes32(bits))>>)
      [] p.op = "pick" -> IF Sum(fs) = 0 THEN Res(s, <<Panic>>)
                          ELSE LET x == Mod32(bits, Sum(fs)) IN
                               Res([v |-> v], <<N(Min({k \in 1..Len(fs) : Sum(SubSeq(fs, 1, k)) > x}) - 1)>>)

-----------------------------------------------------------------------------
Start(kind) == IF kind = "img" THEN [i |-> Blank(1, 1), p |-> Blank(1, 1)] ELSE IF kind = "stats" THEN [v |-> <<>>] ELSE IF kind = "rnd" THEN [v |-> Zeros(8)] ELSE [x |-> 0]
Do1(kind, s, p) ==
    CASE kind = "img" -> DoImg(s, p)
      [] kind = "wav" -> DoWav(s, p)
      [] kind = "tiff" -> DoTiff(s, p)
      [] kind = "tab" -> DoTab(s, p)
      [] kind = "stats" -> DoStats(s, p)
      [] OTHER -> DoRnd(s, p)
Dead == [dead |-> TRUE]
Do(kind, s, p) ==
    IF s = Dead THEN Res(Dead, NJ)
    ELSE LET r == Do1(kind, s, p) IN IF r.o = NJ \/ r.o = <<Panic>> THEN Res(Dead, r.o) ELSE r
=============================================================================
