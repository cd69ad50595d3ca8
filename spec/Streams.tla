------------------------------ MODULE Streams ------------------------------
(* The byte and bit streams of lib: mem, strbuilder, reader, writer,
   enc/endian, bits, linereader, bytereader. Every byte 0..255 is data.     *)
EXTENDS Adt
\* ---- mem: a byte array with one position
Over(s, b) == [d |-> Cut(s.d, s.pos) \o b \o (IF s.pos + Len(b) < Len(s.d) THEN Rest(s.d, s.pos + Len(b)) ELSE <<>>),
               pos |-> s.pos + Len(b)]
DoMem(s, p) ==
    CASE p.op = "putc" -> IF p.a[1].n = -1 THEN Res(s, <<N(-1)>>) ELSE Res(Over(s, <<p.a[1].n>>), <<N(p.a[1].n)>>)
      [] p.op = "getc" -> IF s.pos >= Len(s.d) THEN Res(s, <<N(-1)>>) ELSE Res([s EXCEPT !.pos = @ + 1], <<N(s.d[s.pos + 1])>>)
      [] p.op \in {"write", "wwrite", "printf"} -> Res(Over(s, p.a[1].b), <<N(Len(p.a[1].b))>>)
      [] p.op = "read" -> LET b == Cut(Rest(s.d, s.pos), p.a[1].n) IN Res([s EXCEPT !.pos = @ + Len(b)], <<B(b)>>)
      [] p.op = "rewind" -> Res([s EXCEPT !.pos = 0], <<>>)
      [] p.op = "reset" -> Res([d |-> <<>>, pos |-> 0], <<>>)
      [] OTHER -> Res(s, <<N(s.pos)>>)
\* ---- strbuilder: a growing string
DoSb(s, p) ==
    CASE p.op = "addc" -> Res(Append(s, p.a[1].n), <<N(1)>>)
      [] p.op \in {"adds", "addf"} -> Res(s \o p.a[1].b, <<N(1)>>)
      [] p.op = "len" -> Res(s, <<N(Len(s))>>)
      [] p.op = "raw" -> Res(s, <<B(s)>>)
      [] p.op = "unpack" -> Res(<<>>, <<B(s)>>)
      [] OTHER -> Res(<<>>, <<>>)
\* ---- readers over a buffer ("rs"), a file ("rf"), a descriptor ("rd")
DoRd(s, p) ==
    CASE p.op = "open" -> Res([d |-> p.a[1].b, pos |-> 0], <<>>)
      [] p.op = "read" -> LET b == Cut(Rest(s.d, s.pos), p.a[1].n) IN
                          Res([s EXCEPT !.pos = @ + Len(b)], <<N(Len(b)), B(b), N(s.pos + Len(b))>>)
      [] OTHER -> Res([s EXCEPT !.pos = Lesser(@ + p.a[1].n, Len(s.d))], <<N(Lesser(s.pos + p.a[1].n, Len(s.d)))>>)
\* ---- writers into a buffer of a given size ("ws"), a file ("wf"), a descriptor ("wd")
Room(s) == s.size - Len(s.d)
Put(s, b) == [s EXCEPT !.d = @ \o Cut(b, Room(s))]
Took(s, b) == IF Room(s) = 0 THEN -1 ELSE Lesser(Len(b), Room(s))
DoWr(s, p) ==
    CASE p.op = "open" -> Res([d |-> <<>>, size |-> p.a[1].n], <<>>)
      [] p.op = "write" -> Res(Put(s, p.a[1].b), <<N(Took(s, p.a[1].b)), N(Len(Put(s, p.a[1].b).d))>>)
      [] p.op = "byte" -> Res(Put(s, <<p.a[1].n>>), <<N(Took(s, <<p.a[1].n>>)), N(Len(Put(s, <<p.a[1].n>>).d))>>)
      [] OTHER -> Res(s, <<B(s.d)>>)
\* ---- endian: numbers of 1 to 4 bytes; values are given as two 16-bit halves
Le(hi, lo, n) == Cut(<<lo % 256, lo \div 256, hi % 256, hi \div 256>>, n)
Rev(b) == [i \in 1..Len(b) |-> b[Len(b) + 1 - i]]
LoOf(b) == b[1] + 256 * (IF Len(b) > 1 THEN b[2] ELSE 0)
HiOf(b) == (IF Len(b) > 2 THEN b[3] ELSE 0) + 256 * (IF Len(b) > 3 THEN b[4] ELSE 0)
Width(o) == CASE o \in {"r1", "w1"} -> 1 [] o \in {"r2le", "r2be", "w2le"} -> 2 [] o = "r3le" -> 3 [] OTHER -> 4
Big(o) == o \in {"r2be", "r4be", "w4be"}
Enc(o, hi, lo) == LET b == Le(hi, lo, Width(o)) IN IF Big(o) THEN Rev(b) ELSE b
DoEw(s, p) ==
    CASE p.op = "open" -> Res([d |-> <<>>, size |-> p.a[1].n], <<>>)
      [] p.op = "dump" -> Res(s, <<B(s.d)>>)
      [] OTHER -> LET b == Enc(p.op, p.a[1].n, p.a[2].n) IN Res(Put(s, b), <<N(Took(s, b))>>)
DoEr(s, p) ==
    CASE p.op = "open" -> Res([d |-> p.a[1].b, pos |-> 0], <<>>)
      [] OTHER -> LET w == Width(p.op)
                      b == Cut(Rest(s.d, s.pos), w)
                      v == IF Big(p.op) THEN Rev(b) ELSE b
                  IN Res([s EXCEPT !.pos = @ + Len(b)], IF Len(b) = w THEN <<N(1), N(HiOf(v)), N(LoOf(v))>> ELSE <<N(0), Open, Open>>)
\* ---- bits: order 0 most significant bit of a byte first, 1 least significant first
Bit(x, k) == (x \div Pow(2, k)) % 2
BitsOf(x, ord) == [k \in 1..8 |-> IF ord = 1 THEN Bit(x, k - 1) ELSE Bit(x, 8 - k)]
RECURSIVE Unpack(_, _)
Unpack(bs, ord) == IF bs = <<>> THEN <<>> ELSE BitsOf(bs[1], ord) \o Unpack(Tail(bs), ord)
Weight(k, ord) == IF ord = 1 THEN Pow(2, k - 1) ELSE Pow(2, 8 - k)
RECURSIVE Sum(_, _, _)
Sum(bits, ord, k) == IF k > Lesser(8, Len(bits)) THEN 0 ELSE bits[k] * Weight(k, ord) + Sum(bits, ord, k + 1)
RECURSIVE Pack(_, _)
Pack(bits, ord) == IF bits = <<>> THEN <<>> ELSE <<Sum(bits, ord, 1)>> \o Pack(Rest(bits, 8), ord)
RECURSIVE Num(_, _)
Num(bits, acc) == IF bits = <<>> THEN acc ELSE Num(Tail(bits), 2 * acc + bits[1])
One(x) == IF x = 0 THEN 0 ELSE 1
DoBw(s, p) ==
    CASE p.op = "open" -> Res([ord |-> p.a[1].n, size |-> p.a[2].n, bits |-> <<>>, err |-> FALSE], <<>>)
      \* a write fails once the bytes do not fit any more
      [] p.op = "write1" -> LET bs == Append(s.bits, One(p.a[1].n))
                                bad == s.err \/ (Len(bs) % 8 = 0 /\ Len(bs) \div 8 > s.size)
                            IN Res([s EXCEPT !.bits = IF s.err THEN @ ELSE bs, !.err = bad], <<Bool(~bad)>>)
      [] p.op = "write" -> LET bs == s.bits \o [k \in 1..Len(p.a[1].b) |-> One(p.a[1].b[k])]
                               bad == s.err \/ Len(bs) \div 8 > s.size
                           IN Res([s EXCEPT !.bits = IF s.err THEN @ ELSE bs, !.err = bad],
                                  IF p.a[1].b = <<>> THEN <<Open>> ELSE <<Bool(~bad)>>)
      [] OTHER -> LET bs == Pack(s.bits, s.ord) IN
                  Res(s, <<Bool(~s.err /\ Len(bs) <= s.size), IF s.err \/ Len(bs) > s.size THEN B(Cut(bs, s.size)) ELSE B(bs)>>)
DoBr(s, p) ==
    CASE p.op \in {"open", "openf"} -> Res([bits |-> Unpack(p.a[2].b, p.a[1].n)], <<>>)
      [] p.op = "read1" -> IF s.bits = <<>> THEN Res(s, <<N(-1)>>) ELSE Res([s EXCEPT !.bits = Tail(@)], <<N(s.bits[1])>>)
      [] p.op = "readn" -> LET n == p.a[1].n IN
                           IF Len(s.bits) < n THEN Res([s EXCEPT !.bits = <<>>], <<N(-1)>>)
                           ELSE Res([s EXCEPT !.bits = Rest(@, n)], <<N(Num(Cut(s.bits, n), 0))>>)
      [] p.op = "ls" -> Res(s, <<B(BitsOf(p.a[1].n, 1))>>)
      [] OTHER -> Res(s, <<B(BitsOf(p.a[1].n, 0))>>)
\* ---- linereader
\* The line is read as a C string: its text ends at a zero byte, the line itself does not.
CText(b) == LET Z == { k \in 1..Len(b) : b[k] = 0 } IN IF Z = {} THEN b ELSE Cut(b, (CHOOSE k \in Z : \A j \in Z : k <= j) - 1)
LineLen(d) == LET E == { k \in 1..Len(d) : d[k] = 10 } IN
              IF E = {} THEN Len(d) ELSE CHOOSE k \in E : \A m \in E : k <= m
DoLr(s, p) ==
    CASE p.op = "open" -> Res(p.a[1].b, <<>>)
      [] OTHER -> LET n == LineLen(s) IN IF s = <<>> THEN Res(s, <<N(0)>>) ELSE Res(Rest(s, n), <<N(1), B(CText(Cut(s, n)))>>)
\* ---- bytereader: big-endian numbers from a file
DoBy(s, p) ==
    LET left == Len(s.d) - s.pos
        k == CASE p.op = "read16" -> 2 [] p.op = "read32" -> 4 [] OTHER -> 1
        adv == [s EXCEPT !.pos = @ + Lesser(k, left), !.eof = @ \/ left < k]
    IN
    CASE p.op = "open" -> Res([d |-> p.a[1].b, pos |-> 0, eof |-> FALSE], <<N(1)>>)
      [] p.op = "ended" -> Res(s, <<Bool(s.eof)>>)
      [] p.op = "readc" -> Res(adv, <<N(IF left = 0 THEN -1 ELSE s.d[s.pos + 1])>>)
      [] p.op = "peekc" -> Res([s EXCEPT !.eof = @ \/ left = 0], <<N(IF left = 0 THEN -1 ELSE s.d[s.pos + 1])>>)
      [] OTHER -> IF left < k THEN Res(adv, <<Open, Open>>)
                  ELSE LET v == Rev(SubSeq(s.d, s.pos + 1, s.pos + k)) IN Res(adv, <<N(HiOf(v)), N(LoOf(v))>>)
Start(c) == CASE c = "mem" -> [d |-> <<>>, pos |-> 0] [] OTHER -> <<>>
Do(c, s, p) ==
    CASE c = "mem" -> DoMem(s, p) [] c = "sb" -> DoSb(s, p)
      [] c \in {"rs", "rf", "rd"} -> DoRd(s, p) [] c \in {"ws", "wf", "wd"} -> DoWr(s, p)
      [] c = "ew" -> DoEw(s, p) [] c = "er" -> DoEr(s, p) [] c = "bw" -> DoBw(s, p) [] c = "br" -> DoBr(s, p)
      [] c = "lr" -> DoLr(s, p) [] OTHER -> DoBy(s, p)
RECURSIVE RunFrom(_, _, _, _)
RunFrom(c, s, ps, acc) == IF ps = <<>> THEN acc ELSE LET r == Do(c, s, ps[1]) IN RunFrom(c, r.s, Tail(ps), Append(acc, r.o))
Run(c, ps) == RunFrom(c, Start(c), ps, <<>>)
=============================================================================
