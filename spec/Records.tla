------------------------------ MODULE Records ------------------------------
(* lib/formats: csv, bencode, bencode_writer, torrent, conf. Readers are a
   position in the input, writers the output so far.                         *)
EXTENDS TextBase, SequencesExt
D == INSTANCE Digest

\* d: unread input, out: output, cap: room, n: a count, depth: open nodes;
\* lost: after malformed input that is not refused nothing is specified
Start(kind) == [d |-> <<>>, pos |-> 0, out |-> <<>>, cap |-> 0, n |-> 0, depth |-> 0, first |-> TRUE, lost |-> FALSE]
Eat(s, k) == [s EXCEPT !.d = Rest(@, k), !.pos = @ + k]
Nxt(s) == IF s.d = <<>> THEN -1 ELSE s.d[1]
Lost(s) == [s EXCEPT !.lost = TRUE]

------------------------------------------------------------------------------
(* CSV *)
\* the end of a quoted value that begins at d[1] = ": its text and length, or length 0
RECURSIVE Quoted(_, _, _)
Quoted(d, k, acc) ==
    IF k > Len(d) THEN [v |-> acc, n |-> 0]
    ELSE IF d[k] # 34 THEN Quoted(d, k + 1, Append(acc, d[k]))
    ELSE IF k < Len(d) /\ d[k + 1] = 34 THEN Quoted(d, k + 2, Append(acc, 34))
    ELSE [v |-> acc, n |-> k]
LineEnd == {10, 13}
\* the next value: st "val", "none" (the line has ended), "open" (not refused, not specified), "panic"
CsvVal(s) ==
    LET none == [st |-> "none", s |-> [s EXCEPT !.first = FALSE], v |-> <<>>]
        t == IF s.first THEN [s EXCEPT !.first = FALSE] ELSE Eat(s, 1)
        q == Quoted(t.d, 2, <<>>)
        u == Run(t.d, (1..255) \ {44, 10, 13})
    IN IF s.first /\ (s.d = <<>> \/ s.d[1] \in LineEnd) THEN none
       ELSE IF ~s.first /\ Nxt(s) # 44 THEN (IF s.d = <<>> \/ s.d[1] \in LineEnd THEN none ELSE [none EXCEPT !.st = "open"])
       ELSE IF Nxt(t) # 34 THEN [st |-> "val", s |-> Eat(t, Len(u)), v |-> u]
       ELSE IF q.n = 0 THEN [none EXCEPT !.st = "panic"]
       ELSE [st |-> "val", s |-> Eat(t, q.n), v |-> q.v]
RECURSIVE CsvSkip(_)
CsvSkip(s) == LET r == CsvVal(s) IN IF r.st = "val" THEN CsvSkip(r.s) ELSE r
DoCsv(s, p) ==
    IF p.op = "open" THEN Res([s EXCEPT !.d = p.a[1].b, !.first = TRUE], <<>>)
    ELSE IF p.op = "val" THEN
        LET r == CsvVal(s) IN
        CASE r.st = "val" -> Res(r.s, <<N(1), B(r.v)>>)
          [] r.st = "none" -> Res(r.s, <<N(0)>>)
          [] r.st = "panic" -> Res(s, <<Panic>>)
          [] OTHER -> Res(Lost(s), <<N(-1)>>)
    ELSE LET r == CsvSkip(s)
             k == Span(r.s.d, LineEnd)
         IN CASE r.st = "none" -> Res([Eat(r.s, k) EXCEPT !.first = TRUE], <<Bool(k > 0)>>)
              [] r.st = "panic" -> Res(s, <<Panic>>)
              [] OTHER -> Res(Lost(s), <<N(-1)>>)
CsvQuote(v) == <<34>> \o Flat([k \in 1..Len(v) |-> IF v[k] = 34 THEN <<34, 34>> ELSE <<v[k]>>]) \o <<34>>
DoCsvW(s, p) ==
    CASE p.op = "w" -> Res([s EXCEPT !.out = @ \o (IF s.n > 0 THEN <<44>> ELSE <<>>) \o CsvQuote(p.a[1].b), !.n = @ + 1], <<>>)
      [] p.op = "nl" -> Res([s EXCEPT !.out = Append(@, 10), !.n = 0], <<>>)
      [] OTHER -> Res(s, <<B(s.out)>>)

------------------------------------------------------------------------------
(* bencode *)
RECURSIVE BVal(_, _)
BVal(t, acc) == IF t = <<>> THEN acc ELSE BVal(Tail(t), 10 * acc + t[1] - 48)
\* a number at the head of d: its digits and sign; st "ok", "bad" (refused), "open"
Num(d) ==
    LET neg == d # <<>> /\ d[1] = 45
        g == Run(IF neg THEN Tail(d) ELSE d, Digits)
        n == Len(g) + (IF neg THEN 1 ELSE 0)
    IN [st |-> IF g = <<>> THEN "bad" ELSE IF Len(g) > 18 \/ (Len(g) > 1 /\ g[1] = 48) \/ (neg /\ g = <<48>>) THEN "open" ELSE "ok",
        neg |-> neg, g |-> g, n |-> n, text |-> IF neg THEN <<45>> \o g ELSE g]
\* a string at the head of d: length of its prefix and its text
Str(d) ==
    LET a == Num(d)
        c == Rest(d, a.n)
        big == Len(a.g) > 9
        m == IF big THEN 0 ELSE BVal(a.g, 0)
    IN IF a.st # "ok" THEN [st |-> a.st, m |-> m, head |-> 0, v |-> <<>>]
       ELSE IF a.neg \/ c = <<>> \/ c[1] # 58 \/ big \/ Len(c) - 1 < m THEN [st |-> "bad", m |-> m, head |-> 0, v |-> <<>>]
       ELSE [st |-> "ok", m |-> m, head |-> a.n + 1, v |-> Cut(Tail(c), m)]
\* the length of the value at the head of d, after which lev nodes may be open in all
Bad == [st |-> "bad", n |-> 0]
RECURSIVE Whole(_, _)
RECURSIVE Nodes(_, _, _)
Whole(d, lev) ==
    IF d = <<>> THEN Bad
    ELSE IF d[1] = 105 THEN LET a == Num(Tail(d)) IN
         IF a.st # "ok" THEN [Bad EXCEPT !.st = a.st]
         ELSE IF Len(d) < a.n + 2 \/ d[a.n + 2] # 101 THEN Bad ELSE [st |-> "ok", n |-> a.n + 2]
    ELSE IF d[1] \in {108, 100} THEN (IF lev = 0 THEN [Bad EXCEPT !.st = "open"] ELSE Nodes(d, 1, lev - 1))
    ELSE LET x == Str(d) IN IF x.st # "ok" THEN [Bad EXCEPT !.st = x.st] ELSE [st |-> "ok", n |-> x.head + x.m]
Nodes(d, k, lev) ==
    IF k >= Len(d) THEN Bad
    ELSE IF d[k + 1] = 101 THEN [st |-> "ok", n |-> k + 1]
    ELSE LET w == Whole(Rest(d, k), lev) IN IF w.st # "ok" THEN w ELSE Nodes(d, k + w.n, lev)
Levels == 10
Go(s, st, k, o) == IF st = "ok" THEN Res(Eat(s, k), o) ELSE IF st = "bad" THEN Res(s, <<Panic>>) ELSE Res(Lost(s), <<N(-1)>>)
DoBen(s, p) ==
    CASE p.op = "open" -> Res([s EXCEPT !.d = p.a[1].b, !.pos = 0, !.depth = 0], <<>>)
      [] p.op = "more" -> Res(s, <<Bool(s.d # <<>> /\ ~(s.depth > 0 /\ s.d[1] = 101))>>)
      [] p.op = "type" -> Res(s, <<CASE s.d = <<>> -> N(0) [] Nxt(s) \in {105, 100, 108} -> N(s.d[1]) [] Nxt(s) \in Digits -> N(115) [] OTHER -> Open>>)
      [] p.op = "pos" -> Res(s, <<N(s.pos)>>)
      [] p.op = "enter" -> IF Nxt(s) \notin {108, 100} \/ s.depth = Levels THEN Res(Lost(s), <<N(-1)>>) ELSE Res([Eat(s, 1) EXCEPT !.depth = @ + 1], <<N(0)>>)
      [] p.op = "leave" -> IF Nxt(s) # 101 THEN Res(s, <<Panic>>) ELSE IF s.depth = 0 THEN Res(Lost(s), <<N(-1)>>) ELSE Res([Eat(s, 1) EXCEPT !.depth = @ - 1], <<N(0)>>)
      [] p.op \in {"key", "buf"} ->
            LET x == Str(s.d) cap == p.a[1].n IN
            IF x.st = "ok" /\ cap >= 0 /\ x.m > cap THEN Res(s, <<Panic>>)
            ELSE Go(s, x.st, x.head + x.m, IF cap < 0 THEN <<N(x.m)>> ELSE <<N(x.m), B(x.v \o Zeros(cap - x.m))>>)
      [] p.op = "strsize" -> LET a == Num(s.d) IN
            IF a.st = "ok" /\ (a.neg \/ Len(a.g) > 9) THEN Res(Lost(s), <<N(-1)>>) ELSE Go(s, a.st, 0, <<N(BVal(a.g, 0))>>)
      [] p.op = "num" -> LET a == Num(Tail(s.d)) IN
            IF Nxt(s) # 105 THEN Res(s, <<Panic>>)
            ELSE IF a.st = "ok" /\ (Len(s.d) < a.n + 2 \/ s.d[a.n + 2] # 101) THEN Res(s, <<Panic>>)
            ELSE Go(s, a.st, a.n + 2, <<B(a.text)>>)
      [] OTHER -> IF s.d = <<>> THEN Res(s, <<N(0)>>)
                  ELSE LET w == Whole(s.d, Levels - s.depth) IN Go(s, w.st, w.n, <<N(1)>>)
\* ---- the writer; numbers are given by their canonical decimal text
Put(s, b) == IF s.lost THEN Res(s, <<Open>>)
             ELSE IF Len(s.out) + Len(b) <= s.cap THEN Res([s EXCEPT !.out = @ \o b], <<N(1)>>) ELSE Res(Lost(s), <<N(0)>>)
DoBenW(s, p) ==
    CASE p.op \in {"open", "fopen"} -> Res([s EXCEPT !.out = <<>>, !.lost = FALSE, !.cap = p.a[1].n], <<>>)
      [] p.op = "begin" -> Put(s, <<p.a[1].n>>)
      [] p.op = "end" -> Put(s, <<101>>)
      [] p.op = "num" -> Put(s, <<105>> \o p.a[1].b \o <<101>>)
      [] p.op = "buf" -> Put(s, Dec(Len(p.a[1].b)) \o <<58>> \o p.a[1].b)
      [] p.op = "pos" -> Res(s, <<IF s.lost THEN Open ELSE N(Len(s.out))>>)
      [] OTHER -> Res(s, <<IF s.lost THEN Open ELSE B(s.out)>>)

------------------------------------------------------------------------------
(* torrent files *)
\* the entries of a dictionary at the head of d: <<key, offset of the value, length of the value>>
RECURSIVE Entries(_, _, _)
Entries(d, k, acc) ==
    IF d[k + 1] = 101 THEN acc
    ELSE LET x == Str(Rest(d, k))
             at == k + x.head + x.m
             w == Whole(Rest(d, at), Levels)
         IN Entries(d, at + w.n, Append(acc, <<x.v, at, w.n>>))
RECURSIVE Items(_, _, _)
Items(d, k, acc) == IF d[k + 1] = 101 THEN acc ELSE LET w == Whole(Rest(d, k), Levels) IN Items(d, k + w.n, Append(acc, Cut(Rest(d, k), w.n)))
\* the value of the last entry with that key, or the default
Entry(d, key, none) == LET e == Entries(d, 1, <<>>)
                           S == { k \in 1..Len(e) : e[k][1] = key }
                       IN IF S = {} THEN none ELSE LET k == Max(S) IN Cut(Rest(d, e[k][2]), e[k][3])
Text(v) == IF v = <<>> THEN <<>> ELSE Run(Str(v).v, 1..255)
NumText(v) == IF v = <<>> THEN <<48>> ELSE Num(Tail(v)).text
\* decimal text divided by p < 200000000: quotient (small) and remainder
DivText(t, p) == FoldLeft(LAMBDA a, c : LET x == a[2] * 10 + c - 48 IN <<a[1] * 10 + (x \div p), x % p>>, <<0, 0>>, t)
Joined(parts) == Flat([k \in 1..Len(parts) |-> (IF k > 1 THEN <<47>> ELSE <<>>) \o parts[k]])
kAnnounce == <<97, 110, 110, 111, 117, 110, 99, 101>>
kComment == <<99, 111, 109, 109, 101, 110, 116>>
kCreatedBy == <<99, 114, 101, 97, 116, 101, 100, 32, 98, 121>>
kCreationDate == <<99, 114, 101, 97, 116, 105, 111, 110, 32, 100, 97, 116, 101>>
kInfo == <<105, 110, 102, 111>>
kName == <<110, 97, 109, 101>>
kPieceLength == <<112, 105, 101, 99, 101, 32, 108, 101, 110, 103, 116, 104>>
kLength == <<108, 101, 110, 103, 116, 104>>
kPieces == <<112, 105, 101, 99, 101, 115>>
kFiles == <<102, 105, 108, 101, 115>>
kPath == <<112, 97, 116, 104>>
kPrivate == <<112, 114, 105, 118, 97, 116, 101>>
FileOf(f) == [len |-> NumText(Entry(f, kLength, <<>>)),
              path |-> LET p == Items(Entry(f, kPath, <<108, 101>>), 1, <<>>) IN Joined([k \in 1..Len(p) |-> Text(p[k])])]
Sum(fs) == FoldLeft(LAMBDA a, f : a + BVal(f.len, 0), 0, fs)
Torrent(d) ==
    LET info == Entry(d, kInfo, <<100, 101>>)
        fl == Entry(info, kFiles, <<108, 101>>)
        it == Items(fl, 1, <<>>)
        fs == [k \in 1..Len(it) |-> FileOf(it[k])]
        total == IF fs = <<>> THEN NumText(Entry(info, kLength, <<>>)) ELSE Dec(Sum(fs))
        pl == BVal(NumText(Entry(info, kPieceLength, <<>>)), 0)
        dv == DivText(total, pl)
        np == dv[1] + (IF dv[2] > 0 THEN 1 ELSE 0)
        pcs == Str(Entry(info, kPieces, <<48, 58>>)).v
    IN <<B(Text(Entry(d, kAnnounce, <<>>))), B(Text(Entry(d, kCreatedBy, <<>>))), B(NumText(Entry(d, kCreationDate, <<>>))),
         B(Text(Entry(d, kComment, <<>>))), B(Text(Entry(info, kName, <<>>))), N(pl), B(NumText(Entry(info, kLength, <<>>))),
         N(IF NumText(Entry(info, kPrivate, <<>>)) = <<48>> THEN 0 ELSE 1),
         B(HexAll(D!Sha1(info))), B(D!Sha1(info)),
         B(total), N(np), N(IF dv[2] > 0 THEN dv[2] ELSE pl), B(Cut(pcs, 20 * np)), N(Len(fs))>>
       \o Flat([k \in 1..Len(fs) |-> <<B(fs[k].len), B(fs[k].path)>>])
BS(b) == Dec(Len(b)) \o <<58>> \o b
\* announce, comment, creator, date, length, name, piece length, pieces
Written(a) == <<100>> \o BS(kAnnounce) \o BS(a[1].b) \o BS(kComment) \o BS(a[2].b) \o BS(kCreatedBy) \o BS(a[3].b)
              \o BS(kCreationDate) \o <<105>> \o a[4].b \o <<101>> \o BS(kInfo) \o <<100>>
              \o BS(kLength) \o <<105>> \o a[5].b \o <<101>> \o BS(kName) \o BS(a[6].b)
              \o BS(kPieceLength) \o <<105>> \o Dec(a[7].n) \o <<101>> \o BS(kPieces) \o BS(a[8].b) \o <<101, 101>>
DoTor(s, p) == IF p.op = "parse" THEN Res(s, Torrent(p.a[1].b)) ELSE Res(s, <<B(Written(p.a))>>)

------------------------------------------------------------------------------
(* conf: lines "key = value", # begins a comment *)
RECURSIVE ConfLine(_)
\* the next line that is not empty: its text and what follows it
ConfLine(d) ==
    LET t == LeftTrim(d, Spaces)
        l == Run(t, (1..255) \ {10})
        x == Run(l, (1..255) \ {35})
        r == Rest(t, Len(l) + 1)
    IN IF t = <<>> THEN [x |-> <<>>, r |-> <<>>] ELSE IF x = <<>> THEN ConfLine(r) ELSE [x |-> x, r |-> r]
DoConf(s, p) ==
    IF p.op = "open" THEN Res([s EXCEPT !.d = p.a[1].b], <<>>)
    ELSE LET q == ConfLine(s.d)
             key == Run(q.x, (1..255) \ {61, 32})
             val == LeftTrim(Rest(q.x, Len(key)), {61, 32})
         IN IF q.x = <<>> THEN Res([s EXCEPT !.d = <<>>], <<N(0)>>)
            ELSE IF key = <<>> THEN Res(Lost(s), <<N(-1)>>)
            ELSE IF val = <<>> \/ Len(key) > 99 \/ Len(val) > 199 \/ Len(q.x) > 255 THEN Res(s, <<Panic>>)
            ELSE Res([s EXCEPT !.d = q.r], <<N(1), B(key), IF val[Len(val)] \in Spaces THEN Open ELSE B(val)>>)
Do(c, s, p) ==
    IF c \in {"csv", "ben", "conf"} /\ s.lost THEN Res(s, <<N(-1)>>)
    ELSE CASE c = "csv" -> DoCsv(s, p) [] c = "csvw" -> DoCsvW(s, p) [] c = "ben" -> DoBen(s, p) [] c = "benw" -> DoBenW(s, p)
           [] c = "tor" -> DoTor(s, p) [] OTHER -> DoConf(s, p)
=============================================================================
