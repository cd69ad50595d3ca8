------------------------------- MODULE TextBase -------------------------------
(* The text modules of lib: strings, enc/hex, enc/urlencode, url, tokenizer,
   utf. Texts are byte sequences without NUL unless stated otherwise.       *)
EXTENDS Adt, FiniteSetsExt
Digit(c) == c \in 48..57
Upper(c) == c \in 65..90
Lower(c) == c \in 97..122
Alpha(c) == Upper(c) \/ Lower(c)
Space(c) == c \in 9..13 \/ c = 32
Fold(c) == IF Upper(c) THEN c + 32 ELSE c
FoldAll(s) == [k \in 1..Len(s) |-> Fold(s[k])]
In(c, set) == \E k \in 1..Len(set) : set[k] = c
Begins(s, p) == Len(p) <= Len(s) /\ Cut(s, Len(p)) = p
Ends(s, p) == Len(p) <= Len(s) /\ Rest(s, Len(s) - Len(p)) = p
\* the least k >= 0 such that p begins at s[k+1..], or -1
Find(s, p) == LET ks == { k \in 0..(Len(s) - Len(p)) : \A j \in 1..Len(p) : s[k + j] = p[j] } IN IF ks = {} THEN -1 ELSE Min(ks)
\* the longest prefix of s within a set of bytes
Run(s, S) == LET ks == { k \in 1..Len(s) : s[k] \notin S } IN
             IF ks = {} THEN s ELSE Cut(s, Min(ks) - 1)
Span(s, S) == Len(Run(s, S))
Elems(q) == { q[k] : k \in 1..Len(q) }
Turn(s) == [k \in 1..Len(s) |-> s[Len(s) + 1 - k]]
LeftTrim(s, S) == Rest(s, Span(s, S))
RightTrim(s, S) == Turn(LeftTrim(Turn(s), S))
Spaces == {9, 10, 11, 12, 13, 32}
Digits == 48..57
Letters == (65..90) \cup (97..122)
RECURSIVE Split(_, _, _)
Split(sep, s, max) ==
    IF max = 0 THEN <<>>
    ELSE IF max = 1 \/ Find(s, sep) < 0 THEN <<s>>
    ELSE <<Cut(s, Find(s, sep))>> \o Split(sep, Rest(s, Find(s, sep) + Len(sep)), max - 1)
RECURSIVE Dec(_)
Dec(n) == IF n < 0 THEN <<45>> \o Dec(-n) ELSE IF n < 10 THEN <<48 + n>> ELSE Dec(n \div 10) \o <<48 + (n % 10)>>
\* n / unit to two decimals, halves to even (the quotient is exact in binary)
Hundredths(n, unit) == LET r == n % unit
                           x == (r * 100) \div unit
                           y == (r * 100) % unit
                       IN 100 * (n \div unit) + x + (IF 2 * y > unit \/ (2 * y = unit /\ x % 2 = 1) THEN 1 ELSE 0)
Fixed2(h) == Dec(h \div 100) \o <<46, 48 + ((h \div 10) % 10), 48 + (h % 10)>>
FmtBytes(n) == IF n > 1048576 THEN Fixed2(Hundredths(n, 1048576)) \o <<32, 77, 66>>
               ELSE IF n > 1024 THEN Fixed2(Hundredths(n, 1024)) \o <<32, 75, 66>>
               ELSE Dec(n) \o <<32, 66>>
Bs(ss) == [k \in 1..Len(ss) |-> B(ss[k])]
DoStr(p) ==
    LET x == p.a[1].b y == p.a[2].b IN
    CASE p.op \in {"newstr"} -> <<B(x)>>
      [] p.op = "sub" -> <<B(Cut(Rest(x, p.a[2].n), p.a[3].n - p.a[2].n))>>
      [] p.op = "trim" -> <<B(RightTrim(LeftTrim(x, Spaces), Spaces))>>
      [] p.op = "rtrim" -> <<B(RightTrim(x, Elems(y)))>>
      [] p.op = "split" -> LET r == Split(x, y, p.a[3].n) IN <<N(Len(r))>> \o Bs(r)
      [] p.op = "casecmp" -> <<Bool(FoldAll(x) = FoldAll(y))>>
      [] p.op = "starts" -> <<Bool(Begins(x, y))>>
      [] p.op = "starts_i" -> <<Bool(Begins(FoldAll(x), FoldAll(y)))>>
      [] p.op = "ends" -> <<Bool(Ends(x, y))>>
      [] p.op = "eq" -> <<Bool(x = y)>>
      [] p.op = "allupper" -> <<Bool(\A k \in 1..Len(x) : ~Lower(x[k]))>>
      [] p.op = "fmtbytes" -> <<B(FmtBytes(p.a[1].n))>>
      [] p.op = "digit" -> IF p.a[1].n \in 0..9 THEN <<N(48 + p.a[1].n)>> ELSE <<Panic>>
      [] OTHER -> <<N(IF Digit(p.a[1].n) THEN p.a[1].n - 48 ELSE -1)>>
\* ---- encodings into a writer with room for a given number of bytes
HexDig(d, up) == IF d < 10 THEN 48 + d ELSE (IF up THEN 55 ELSE 87) + d
Hex2(c, up) == <<HexDig(c \div 16, up), HexDig(c % 16, up)>>
HexAll(s) == Flat([k \in 1..Len(s) |-> Hex2(s[k], FALSE)])
Url1(c) == IF Alpha(c) \/ Digit(c) THEN <<c>> ELSE <<37>> \o Hex2(c, TRUE)
UrlAll(s) == Flat([k \in 1..Len(s) |-> Url1(s[k])])
HexVal(c) == IF Digit(c) THEN c - 48 ELSE IF Upper(c) THEN c - 55 ELSE c - 87
RECURSIVE UrlBack(_), HexBack(_)
UrlBack(s) == IF s = <<>> THEN <<>>
              ELSE IF s[1] = 37 THEN <<16 * HexVal(s[2]) + HexVal(s[3])>> \o UrlBack(Rest(s, 3)) ELSE <<s[1]>> \o UrlBack(Tail(s))
HexBack(s) == IF s = <<>> THEN <<>> ELSE <<16 * HexVal(s[1]) + HexVal(s[2])>> \o HexBack(Rest(s, 2))
\* result (negative: failed) and the bytes written, unspecified after a failure
DoEnc(p) ==
    CASE p.op = "hex" -> LET e == HexAll(p.a[1].b) IN
             IF Len(e) <= p.a[2].n THEN <<N(Len(p.a[1].b)), B(e)>> ELSE <<N(-1), Open>>
      [] p.op = "byte" -> <<B(Hex2(p.a[1].n, FALSE))>>
      [] OTHER -> LET e == UrlAll(p.a[1].b) IN
             IF Len(e) <= p.a[2].n THEN <<N(Len(e)), B(e)>> ELSE <<N(-1), Open>>
\* ---- url: schema://host[:port][/path]; parts that do not fit are refused
DoUrl(p) ==
    LET x == p.a[1].b
        sch == Cut(x, IF Find(x, <<58>>) < 0 THEN Len(x) ELSE Find(x, <<58>>))
        r1 == Rest(x, Len(sch))
        r2 == Rest(r1, 3)
        host == Run(r2, (1..255) \ {47, 58})
        r3 == Rest(r2, Len(host))
        port == IF r3 # <<>> /\ r3[1] = 58 THEN Run(Tail(r3), (1..255) \ {47}) ELSE <<>>
        r4 == IF r3 # <<>> /\ r3[1] = 58 THEN Rest(r3, 1 + Len(port)) ELSE r3
        path == IF r4 = <<>> THEN <<47>> ELSE r4
    IN IF ~Begins(r1, <<58, 47, 47>>) THEN <<Null>>
       ELSE IF Len(sch) > 9 \/ Len(host) > 99 \/ Len(port) > 9 \/ Len(path) > 99 THEN <<Null>>
       ELSE Bs(<<sch, host, port, path>>)
\* ---- tokenizer: the unread bytes (NUL allowed) and the position; after a
\*      failed number the position in the input is unspecified ("lost")
TokStart == [d |-> <<>>, row |-> 1, col |-> 1, lost |-> FALSE]
Past(s, m) == LET n == Lesser(m, Len(s.d))
                  nl == { k \in 1..n : s.d[k] = 10 }
              IN IF n = 0 THEN s
                 ELSE [s EXCEPT !.d = Rest(s.d, n), !.row = @ + Cardinality(nl), !.col = IF nl = {} THEN @ + n ELSE 1 + n - Max(nl)]
\* the longest number prefix: length, or -1 if what is there is not a number
NumLen(d) ==
    LET at(k) == IF k <= Len(d) THEN d[k] ELSE -1
        i == IF at(1) = 45 THEN 1 ELSE 0
        n1 == Span(Rest(d, i), Digits)
        j == i + n1
        dot == at(j + 1) = 46
        n2 == IF dot THEN Span(Rest(d, j + 1), Digits) ELSE 0
        k == IF dot THEN j + 1 + n2 ELSE j
        ex == at(k + 1) \in {69, 101}
        sg == IF ex /\ at(k + 2) \in {43, 45} THEN 1 ELSE 0
        n3 == IF ex THEN Span(Rest(d, k + 1 + sg), Digits) ELSE 0
    IN IF n1 = 0 \/ (dot /\ n2 = 0) \/ (ex /\ n3 = 0) THEN -1 ELSE IF ex THEN k + 1 + sg + n3 ELSE k
Ids == Letters \cup {95}
CStr(b) == Run(b, 1..255)
DoTok1(s, p) ==
    LET next == IF s.d = <<>> THEN -1 ELSE s.d[1] IN
    CASE p.op = "peek" -> Res(s, <<N(next)>>)
      [] p.op = "more" -> Res(s, <<Bool(s.d # <<>>)>>)
      [] p.op = "get" -> Res(Past(s, 1), <<N(next)>>)
      [] p.op = "tail" -> Res(s, <<B(CStr(Cut(s.d, p.a[1].n - 1)))>>)
      [] p.op = "skip" -> LET y == s.d # <<>> /\ next = p.a[1].n IN Res(IF y THEN Past(s, 1) ELSE s, <<Bool(y)>>)
      [] p.op = "skipset" -> Res(Past(s, Span(s.d, Elems(p.a[1].b))), <<>>)
      [] p.op = "readset" -> LET r == Run(s.d, Elems(p.a[1].b)) IN Res(Past(s, Len(r)), <<B(r)>>)
      [] p.op = "spaces" -> LET n == Span(s.d, Spaces) IN Res(Past(s, n), <<Bool(n > 0)>>)
      [] p.op = "hspaces" -> Res(Past(s, Span(s.d, {9, 32})), <<>>)
      [] p.op = "id" -> IF next \notin Ids THEN Res(s, <<N(0), Open>>)
                        ELSE LET r == Run(s.d, Ids \cup Digits) IN Res(Past(s, Len(r)), <<N(1), B(Cut(r, p.a[1].n - 1))>>)
      [] p.op = "num" -> LET n == NumLen(s.d) IN
                         IF n < 0 \/ n >= p.a[1].n THEN Res([s EXCEPT !.lost = TRUE], <<N(0), Open>>)
                         ELSE Res(Past(s, n), <<N(1), B(Cut(s.d, n))>>)
      [] p.op = "lit" -> IF Begins(s.d, p.a[1].b) THEN Res(Past(s, Len(p.a[1].b)), <<N(1)>>) ELSE Res(s, <<N(0)>>)
      [] p.op = "follows" -> Res(s, <<Bool(Begins(s.d, p.a[1].b))>>)
      [] p.op = "pos" -> Res(s, <<B(Dec(s.row) \o <<58>> \o Dec(s.col))>>)
      [] p.op = "until" -> LET k == Find(s.d, p.a[1].b)
                               r == Cut(s.d, IF k < 0 THEN Len(s.d) ELSE k)
                           IN Res(Past(s, Len(r)), <<B(CStr(r))>>)
      [] OTHER -> LET r == Run(s.d, (0..255) \ {p.a[1].n}) IN
                  IF Len(r) < p.a[2].n THEN Res(Past(s, Len(r)), <<N(1), B(CStr(r))>>) ELSE Res(Past(s, p.a[2].n - 1), <<N(0), Open>>)
Opened(o) == [k \in 1..Len(o) |-> Open]
DoTok(s, p) ==
    IF p.op = "open" THEN Res([TokStart EXCEPT !.d = p.a[2].b], <<>>)
    ELSE IF s.lost THEN Res(s, Opened(DoTok1(s, p).o)) ELSE DoTok1(s, p)
\* ---- utf
Enc8(r) == IF r < 128 THEN <<r>>
           ELSE IF r < 2048 THEN <<192 + (r \div 64), 128 + (r % 64)>>
           ELSE IF r < 65536 THEN <<224 + (r \div 4096), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
           ELSE IF r <= 1114111 THEN <<240 + (r \div 262144), 128 + ((r \div 4096) % 64), 128 + ((r \div 64) % 64), 128 + (r % 64)>>
           ELSE <<239, 191, 189>>
Cont(s, k) == k <= Len(s) /\ s[k] \in 128..191
\* the first rune of a non-empty text: value and length
Rune1(s) ==
    LET bad == <<65533, 1>>
        c == s[1]
        v2 == (c % 32) * 64 + (s[2] % 64)
        v3 == ((c % 16) * 64 + (s[2] % 64)) * 64 + (s[3] % 64)
        v4 == (((c % 8) * 64 + (s[2] % 64)) * 64 + (s[3] % 64)) * 64 + (s[4] % 64)
    IN IF c < 128 THEN <<c, 1>>
       ELSE IF c < 192 \/ c > 247 \/ ~Cont(s, 2) THEN bad
       ELSE IF c < 224 THEN (IF v2 < 128 THEN bad ELSE <<v2, 2>>)
       ELSE IF ~Cont(s, 3) THEN bad
       ELSE IF c < 240 THEN (IF v3 < 2048 THEN bad ELSE <<v3, 3>>)
       ELSE IF ~Cont(s, 4) THEN bad
       ELSE IF v4 < 65536 \/ v4 > 1114111 THEN bad ELSE <<v4, 4>>
RECURSIVE Runes(_)
\* all runes of a text with their offsets
Runes(s) == IF s = <<>> THEN <<>> ELSE
            LET r == Rune1(s) t == Runes(Rest(s, r[2])) IN <<<<r[1], 0>>>> \o [k \in 1..Len(t) |-> <<t[k][1], t[k][2] + r[2]>>]
Need(c) == IF c < 128 THEN 1 ELSE IF c < 224 THEN 2 ELSE IF c < 240 THEN 3 ELSE 4
RECURSIVE NLen(_)
\* complete runes in exactly these bytes
NLen(s) == IF s = <<>> \/ s[1] = 0 THEN 0 ELSE IF Len(s) < Need(s[1]) THEN 0 ELSE 1 + NLen(Rest(s, Rune1(s)[2]))
Firsts(rs, c) == { rs[k][2] : k \in { j \in 1..Len(rs) : rs[j][1] = c } }
Least(S) == IF S = {} THEN Null ELSE N(Min(S))
Most(S) == IF S = {} THEN Null ELSE N(Max(S))
\* boundaries: where an encoded text may be found
Subs(s, t) == { k \in 0..Len(s) : Begins(Rest(s, k), t) }
Cmp(a, b) == LET ks == { k \in 1..Lesser(Len(a), Len(b)) : a[k] # b[k] } IN
             IF ks # {} THEN LET k == CHOOSE k \in ks : \A j \in ks : k <= j IN (IF a[k] > b[k] THEN 1 ELSE -1)
             ELSE IF Len(a) > Len(b) THEN 1 ELSE IF Len(a) < Len(b) THEN -1 ELSE 0
\* rune strings are given as UTF-8; the driver converts with the same functions
Vals(s) == LET r == Runes(s) IN [k \in 1..Len(r) |-> r[k][1]]
Utf(v) == Flat([k \in 1..Len(v) |-> Enc8(v[k])])
DoUtf(p) ==
    LET x == p.a[1].b y == p.a[2].b vx == Vals(x) vy == Vals(y) IN
    CASE p.op = "get" -> LET r == Rune1(x) IN <<N(r[2]), N(r[1])>>
      [] p.op = "put" -> <<N(Len(Enc8(p.a[1].n))), B(Enc8(p.a[1].n)), N(Len(Enc8(p.a[1].n)))>>
      [] p.op = "nlen" -> <<N(Len(Utf(vx)))>>
      [] p.op = "full" -> <<Bool(x # <<>> /\ Len(x) >= Need(x[1]))>>
      [] p.op = "count" -> <<N(Len(Runes(x)))>>
      [] p.op = "utfnlen" -> <<N(NLen(Cut(x \o <<0, 0, 0, 0>>, p.a[2].n)))>>
      [] p.op = "rune" -> <<Least(Firsts(Runes(x), p.a[2].n))>>
      [] p.op = "rrune" -> <<Most(Firsts(Runes(x), p.a[2].n))>>
      [] p.op = "utfutf" -> <<Least(Subs(x, y))>>
      [] p.op = "ecpy" -> IF Len(x) < p.a[2].n THEN <<N(Len(x)), B(x)>> ELSE <<Open, Open>>
      [] p.op = "chr" -> <<Least({ k - 1 : k \in { j \in 1..Len(vx) : vx[j] = p.a[2].n } })>>
      [] p.op = "rchr" -> <<Most({ k - 1 : k \in { j \in 1..Len(vx) : vx[j] = p.a[2].n } })>>
      [] p.op = "str" -> <<Least(Subs(vx, vy))>>
      [] p.op \in {"dup", "cpy"} -> <<B(Utf(vx))>>
      [] p.op = "cat" -> <<B(Utf(vx \o vy))>>
      [] p.op = "ncat" -> <<B(Utf(vx \o Cut(vy, p.a[3].n)))>>
      [] p.op = "ncpy" -> <<B(Utf(Cut(vx, p.a[2].n)))>>
      [] p.op = "recpy" -> LET r == Cut(vx, p.a[2].n - 1) IN <<N(Len(r)), B(Utf(r))>>
      [] p.op = "cmp" -> <<N(Cmp(vx, vy))>>
      [] p.op = "ncmp" -> <<N(Cmp(Cut(vx, p.a[3].n), Cut(vy, p.a[3].n)))>>
      [] p.op = "lower" -> <<N(Fold(p.a[1].n))>>
      [] p.op = "upper" -> <<N(IF Lower(p.a[1].n) THEN p.a[1].n - 32 ELSE p.a[1].n)>>
      [] p.op = "islower" -> <<Bool(Lower(p.a[1].n))>>
      [] p.op = "isalpha" -> <<Bool(Alpha(p.a[1].n))>>
      [] OTHER -> IF p.a[1].n \in 11..13 THEN <<Open>> ELSE <<Bool(Space(p.a[1].n))>>
=============================================================================
