------------------------------ MODULE Compress ------------------------------
(* lib/compress: LZW with a dictionary that is reset when full, and Huffman
   codes (optimal trees from a text, canonical trees from length counts).    *)
EXTENDS Adt, SequencesExt

------------------------------------------------------------------------------
(* LZW. A dictionary is a sequence of words, word i+1 being that of code i;
   codes n and n+1 are RESET and END. Encoder and decoder exchange codes,
   each with the width in bits it is written in.                             *)
First(n) == [i \in 1..(n + 2) |-> IF i <= n THEN <<i - 1>> ELSE <<>>]
RECURSIVE WidthFrom(_, _, _)
WidthFrom(w, top, m) == IF top < m THEN WidthFrom(w + 1, top * 2, m) ELSE w
Width(size) == WidthFrom(1, 1, size - 1)
Code(c, w) == [c |-> c, w |-> w]

IsPrefix1(w, x, k) == Len(w) <= Len(x) - k + 1 /\ \A j \in 1..Len(w) : x[k + j - 1] = w[j]
\* the longest word that the input goes on with at position k (words up to lim)
Match(d, x, k, lim) ==
    LET S == { i \in 1..Len(d) : d[i] # <<>> /\ Len(d[i]) <= lim /\ IsPrefix1(d[i], x, k) } IN
    CHOOSE i \in S : \A j \in S : Len(d[j]) < Len(d[i]) \/ (Len(d[j]) = Len(d[i]) /\ i <= j)

ASSUME Width(4096) = Width(4097)   \* so capping the size at the limit, as done here, is no difference
RECURSIVE EncFrom(_, _, _, _, _, _, _)
EncFrom(x, k, d, n, Top, lim, acc) ==
    IF k > Len(x) THEN acc \o <<Code(n + 1, Width(Len(d)))>>
    ELSE LET m == Match(d, x, k, lim)
             a == acc \o <<Code(m - 1, Width(Len(d)))>>
             nx == k + Len(d[m])
         IN IF nx > Len(x) THEN a \o <<Code(n + 1, Width(Lesser(Len(d) + 1, Top)))>>
            ELSE LET full == Len(d) = Top
                     b == IF full THEN a \o <<Code(n, Width(Len(d)))>> ELSE a
                     e == IF full THEN First(n) ELSE d
                 IN EncFrom(x, nx, Append(e, SubSeq(x, k, nx)), n, Top, lim, b)
Enc(x, n, Top, lim) == EncFrom(x, 1, First(n), n, Top, lim, <<>>)

\* The decoder: what it has written when it reads END, or failure.
Fail == [ok |-> FALSE, x |-> <<>>]
RECURSIVE DecFrom(_, _, _, _, _, _, _, _)
DecFrom(cs, k, d, prev, n, Top, lim, acc) ==
    IF k > Len(cs) THEN Fail
    ELSE IF cs[k].w # Width(IF prev = <<>> THEN Len(d) ELSE Lesser(Len(d) + 1, Top)) THEN Fail
    ELSE LET c == cs[k].c IN
    CASE c = n -> DecFrom(cs, k + 1, First(n), prev, n, Top, lim, acc)
      [] c = n + 1 -> [ok |-> k = Len(cs), x |-> acc]
      [] c > Len(d) \/ (c = Len(d) /\ prev = <<>>) -> Fail
      [] OTHER ->
         LET cur == IF c = Len(d) THEN Append(prev, prev[1]) ELSE d[c + 1]
             e == IF prev = <<>> THEN d
                  ELSE Append(IF Len(d) = Top THEN First(n) ELSE d, Append(prev, cur[1]))
         IN IF Len(cur) > lim THEN Fail ELSE DecFrom(cs, k + 1, e, cur, n, Top, lim, acc \o cur)
Dec(cs, n, Top, lim) == DecFrom(cs, 1, First(n), <<>>, n, Top, lim, <<>>)

RECURSIVE Bits(_)
Bits(cs) == IF cs = <<>> THEN 0 ELSE cs[1].w + Bits(Tail(cs))
Bytes(bits) == (bits + 7) \div 8
\* The same for a run of one symbol (RunLaw). There are words of length 1 and of
\* from..len; each word used makes one that is longer by one.
RunStep(q, n, Top, lim) ==
    IF q.left = 0 THEN q
    ELSE LET len == IF q.left < q.len /\ q.left < q.from THEN 1 ELSE q.len
             fr == IF len = 1 THEN 1 ELSE q.from
             m == Lesser(q.left, len)
             w == Width(q.size)
         IN IF q.left = m THEN [q EXCEPT !.left = 0, !.bits = @ + w + Width(Lesser(q.size + 1, Top))]
            ELSE IF q.size = Top
                 THEN LET nx == IF m = lim THEN 1 ELSE m + 1 IN
                      [left |-> q.left - m, len |-> nx, from |-> nx, size |-> n + 3, bits |-> q.bits + 2 * w]
                 ELSE [left |-> q.left - m, len |-> Lesser(m + 1, lim), from |-> fr, size |-> q.size + 1, bits |-> q.bits + w]
RunBits(k, n, Top, lim) ==
    IF k = 0 THEN Width(n + 2)
    ELSE LET q == FoldLeft(LAMBDA acc, i : RunStep(acc, n, Top, lim), [left |-> k, len |-> 1, from |-> 1, size |-> n + 2, bits |-> 0],
                           [i \in 1..Lesser(k, 6000) |-> i])
         IN IF q.left = 0 THEN q.bits ELSE Assert(FALSE, "run too long")

------------------------------------------------------------------------------
(* Huffman: the length of a text in an optimal prefix code is the sum of the
   weights of the inner nodes, the two lightest trees being joined each time. *)
Counts(x) == LET S == ToSet(x) IN SetToSeq({ <<c, Cardinality({ i \in 1..Len(x) : x[i] = c })>> : c \in S })
Weights(x) == LET q == Counts(x) IN SortSeq([i \in 1..Len(q) |-> q[i][2]], LAMBDA a, b : a < b)
Insert(q, w) == LET k == Cardinality({ i \in 1..Len(q) : q[i] < w }) IN SubSeq(q, 1, k) \o <<w>> \o SubSeq(q, k + 1, Len(q))
RECURSIVE Cost(_)
Cost(q) == IF Len(q) < 2 THEN 0 ELSE LET w == q[1] + q[2] IN w + Cost(Insert(SubSeq(q, 3, Len(q)), w))
Size(x) == LET q == Weights(x) IN IF Len(q) = 1 THEN q[1] ELSE Cost(q)

(* Canonical codes: in the order of lengths, each code is the next number.   *)
Lengths(cnt) == Flat([i \in 1..Len(cnt) |-> [j \in 1..cnt[i] |-> i]])
RECURSIVE NumsFrom(_, _, _, _)
NumsFrom(ls, k, at, acc) ==      \* at: next free code as a number of Len ls[k] bits
    IF k > Len(ls) THEN acc
    ELSE LET a == IF k = 1 THEN 0 ELSE (at * Pow(2, ls[k] - ls[k - 1])) IN NumsFrom(ls, k + 1, a + 1, Append(acc, a))
Nums(ls) == NumsFrom(ls, 1, 0, <<>>)
BitsOf(v, n) == [i \in 1..n |-> (v \div Pow(2, n - i)) % 2]
Codes(cnt) == LET ls == Lengths(cnt) ns == Nums(ls) IN [i \in 1..Len(ls) |-> BitsOf(ns[i], ls[i])]
Valid(cnt) == LET ls == Lengths(cnt) ns == Nums(ls) IN \A i \in 1..Len(ls) : ns[i] < Pow(2, ls[i])
Where(vals, c) == CHOOSE i \in 1..Len(vals) : vals[i] = c
Encoded(cnt, vals, msg) == LET cs == Codes(cnt) IN Flat([i \in 1..Len(msg) |-> cs[Where(vals, msg[i])]])
ByteAt(bits, k) == LET b(j) == IF 8 * k + j <= Len(bits) THEN bits[8 * k + j] ELSE 0 IN
    128 * b(1) + 64 * b(2) + 32 * b(3) + 16 * b(4) + 8 * b(5) + 4 * b(6) + 2 * b(7) + b(8)
Pack(bits) == [k \in 1..Bytes(Len(bits)) |-> ByteAt(bits, k - 1)]
Unpack(b) == Flat([i \in 1..Len(b) |-> BitsOf(b[i], 8)])
\* reading: symbols up to the end; "bad" at bits that begin no code or end inside one
RECURSIVE ReadFrom(_, _, _, _, _)
ReadFrom(cs, vals, bits, k, acc) ==
    IF k > Len(bits) THEN [ok |-> TRUE, x |-> acc]
    ELSE LET S == { i \in 1..Len(cs) : k + Len(cs[i]) - 1 <= Len(bits) /\ SubSeq(bits, k, k + Len(cs[i]) - 1) = cs[i] } IN
         IF S = {} THEN [ok |-> FALSE, x |-> acc]
         ELSE LET i == CHOOSE i \in S : TRUE IN ReadFrom(cs, vals, bits, k + Len(cs[i]), Append(acc, vals[i]))

------------------------------------------------------------------------------
Start(kind) == 0
Do(kind, s, p) ==
    LET a == p.a IN
    CASE p.op = "lzw" -> Res(s, <<B(a[3].b), AtMost(Bytes(Bits(Enc(a[3].b, a[1].n, 4096, 4095))))>>)
      [] p.op = "lzwbig" -> Res(s, <<N(1)>>)         \* RoundTrip, checked in CompressMC
      [] p.op = "lzwrun" -> Res(s, <<N(1), AtMost(Bytes(RunBits(a[3].n, a[1].n, 4096, 4095)))>>)
      [] p.op = "huff" -> Res(s, <<B(a[1].b), AtMost(Bytes(Size(a[1].b)))>>)
      [] p.op = "huffbig" -> Res(s, <<N(1)>>)
      [] p.op = "canon" -> Res(s, <<B(Pack(Encoded(a[1].b, a[2].b, a[3].b))), B(a[3].b)>>)
      [] p.op = "cread" -> LET r == ReadFrom(Codes(a[1].b), a[2].b, Unpack(a[3].b), 1, <<>>) IN
                           Res(s, <<IF r.ok THEN B(r.x) ELSE Panic>>)
=============================================================================
