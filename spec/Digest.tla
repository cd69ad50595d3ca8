------------------------------- MODULE Digest -------------------------------
(* lib/crypt: MD5 (RFC 1321) and SHA-1 (FIPS 180-4). A 32-bit word is a pair
   of 16-bit halves <<high, low>>.                                           *)
EXTENDS Adt, Bitwise, SequencesExt

W(h, l) == <<h, l>>
Add2(a, b) == LET l == a[2] + b[2] IN <<(a[1] + b[1] + (l \div 65536)) % 65536, l % 65536>>
Add4(a, b, c, d) == LET l == a[2] + b[2] + c[2] + d[2] IN <<(a[1] + b[1] + c[1] + d[1] + (l \div 65536)) % 65536, l % 65536>>
Add5(a, b, c, d, e) == Add2(Add4(a, b, c, d), e)
WAnd(a, b) == <<a[1] & b[1], a[2] & b[2]>>
WOr(a, b) == <<a[1] | b[1], a[2] | b[2]>>
WXor(a, b) == <<a[1] ^^ b[1], a[2] ^^ b[2]>>
WNot(a) == <<65535 - a[1], 65535 - a[2]>>
P2 == [n \in 0..16 |-> IF n = 0 THEN 1 ELSE Pow(2, n)]
\* rotation to the left
Rot(a, n) ==
    LET b == IF n >= 16 THEN <<a[2], a[1]>> ELSE a
        m == n % 16
    IN <<((b[1] * P2[m]) % 65536) + (b[2] \div P2[16 - m]), ((b[2] * P2[m]) % 65536) + (b[1] \div P2[16 - m])>>
HiLo(w) == <<w[1] \div 256, w[1] % 256, w[2] \div 256, w[2] % 256>>     \* bytes, most significant first
LoHi(w) == <<w[2] % 256, w[2] \div 256, w[1] % 256, w[1] \div 256>>
BE(b, k) == <<b[k] * 256 + b[k + 1], b[k + 2] * 256 + b[k + 3]>>
LE(b, k) == <<b[k + 3] * 256 + b[k + 2], b[k + 1] * 256 + b[k]>>

\* the message, 0x80, zeros, and the length in bits (below 2^31) in eight bytes
Pad(n) == (64 - ((n + 9) % 64)) % 64
Len4(n) == <<(n \div 2097152) % 256, (n \div 8192) % 256, (n \div 32) % 256, (n % 32) * 8>>
Msg(b, big) == b \o <<128>> \o Zeros(Pad(Len(b))) \o (IF big THEN Zeros(4) \o Len4(Len(b)) ELSE Reverse(Len4(Len(b))) \o Zeros(4))
Count(s) == [i \in 1..s |-> i]

------------------------------------------------------------------------------
(* MD5. *)
T == <<
    <<55146, 42104>>, <<59591, 46934>>, <<9248, 28891>>, <<49597, 52974>>,
    <<62844, 4015>>, <<18311, 50730>>, <<43056, 17939>>, <<64838, 38145>>,
    <<27008, 39128>>, <<35652, 63407>>, <<65535, 23473>>, <<35164, 55230>>,
    <<27536, 4386>>, <<64920, 29075>>, <<42617, 17294>>, <<18868, 2081>>,
    <<63006, 9570>>, <<49216, 45888>>, <<9822, 23121>>, <<59830, 51114>>,
    <<54831, 4189>>, <<580, 5203>>, <<55457, 59009>>, <<59347, 64456>>,
    <<8673, 52710>>, <<49975, 2006>>, <<62677, 3463>>, <<17754, 5357>>,
    <<43491, 59653>>, <<64751, 41976>>, <<26479, 729>>, <<36138, 19594>>,
    <<65530, 14658>>, <<34673, 63105>>, <<28061, 24866>>, <<64997, 14348>>,
    <<42174, 59972>>, <<19422, 53161>>, <<63163, 19296>>, <<48831, 48240>>,
    <<10395, 32454>>, <<60065, 10234>>, <<54511, 12421>>, <<1160, 7429>>,
    <<55764, 53305>>, <<59099, 39397>>, <<8098, 31992>>, <<50348, 22117>>,
    <<62505, 8772>>, <<17194, 65431>>, <<43924, 9127>>, <<64659, 41017>>,
    <<25947, 22979>>, <<36620, 52370>>, <<65519, 62589>>, <<34180, 24017>>,
    <<28584, 32335>>, <<65068, 59104>>, <<41729, 17172>>, <<19976, 4513>>,
    <<63315, 32386>>, <<48442, 62005>>, <<10967, 53947>>, <<60294, 54161>> >>
Shift == <<7, 12, 17, 22, 5, 9, 14, 20, 4, 11, 16, 23, 6, 10, 15, 21>>
Mix(r, x, y, z) == CASE r = 0 -> WOr(WAnd(x, y), WAnd(WNot(x), z))
                     [] r = 1 -> WOr(WAnd(x, z), WAnd(y, WNot(z)))
                     [] r = 2 -> WXor(x, WXor(y, z))
                     [] r = 3 -> WXor(y, WOr(x, WNot(z)))
Pick(r, i) == CASE r = 0 -> i [] r = 1 -> (1 + 5 * i) % 16 [] r = 2 -> (5 + 3 * i) % 16 [] r = 3 -> (7 * i) % 16
Md5Step(q, k, m) ==              \* k: 1..64; q = <<a, b, c, d>>
    LET r == (k - 1) \div 16
        i == (k - 1) % 16
        f == Add4(q[1], Mix(r, q[2], q[3], q[4]), m[Pick(r, i) + 1], T[k])
    IN <<q[4], Add2(q[2], Rot(f, Shift[4 * r + (i % 4) + 1])), q[2], q[3]>>
Md5Init == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>>>
Md5Block(q, b, at) ==
    LET m == [j \in 1..16 |-> LE(b, at + 4 * (j - 1))]
        z == FoldLeft(LAMBDA acc, k : Md5Step(acc, k, m), q, Count(64))
    IN [j \in 1..4 |-> Add2(q[j], z[j])]
Md5(b) == LET m == Msg(b, FALSE)
              q == FoldLeft(LAMBDA acc, k : Md5Block(acc, m, 64 * (k - 1) + 1), Md5Init, Count(Len(m) \div 64))
          IN LoHi(q[1]) \o LoHi(q[2]) \o LoHi(q[3]) \o LoHi(q[4])

(* SHA-1. *)
Sched(b, at) ==
    FoldLeft(LAMBDA acc, t : Append(acc, Rot(WXor(WXor(acc[t - 3], acc[t - 8]), WXor(acc[t - 14], acc[t - 16])), 1)),
             [j \in 1..16 |-> BE(b, at + 4 * (j - 1))], [i \in 1..64 |-> 16 + i])
Fn(t, x, y, z) == CASE t <= 20 -> WOr(WAnd(x, y), WAnd(WNot(x), z))
                    [] t > 40 /\ t <= 60 -> WXor(WAnd(x, y), WXor(WAnd(x, z), WAnd(y, z)))
                    [] OTHER -> WXor(x, WXor(y, z))
Kt(t) == CASE t <= 20 -> <<23170, 31129>> [] t > 20 /\ t <= 40 -> <<28377, 60321>> [] t > 40 /\ t <= 60 -> <<36635, 48348>> [] OTHER -> <<51810, 49622>>
ShaStep(q, t, s) == <<Add5(Rot(q[1], 5), Fn(t, q[2], q[3], q[4]), q[5], Kt(t), s[t]), q[1], Rot(q[2], 30), q[3], q[4]>>
ShaInit == <<<<26437, 8961>>, <<61389, 43913>>, <<39098, 56574>>, <<4146, 21622>>, <<50130, 57840>>>>
ShaBlock(q, b, at) ==
    LET s == Sched(b, at)
        z == FoldLeft(LAMBDA acc, t : ShaStep(acc, t, s), q, Count(80))
    IN [j \in 1..5 |-> Add2(q[j], z[j])]
Sha1(b) == LET m == Msg(b, TRUE)
               q == FoldLeft(LAMBDA acc, k : ShaBlock(acc, m, 64 * (k - 1) + 1), ShaInit, Count(Len(m) \div 64))
           IN Flat([j \in 1..5 |-> HiLo(q[j])])

HexDigit(n) == IF n < 10 THEN 48 + n ELSE 87 + n
Hex(b) == Flat([i \in 1..Len(b) |-> <<HexDigit(b[i] \div 16), HexDigit(b[i] % 16)>>])

------------------------------------------------------------------------------
(* A SHA-1 digest in the making: bytes are added until it is ended.          *)
Start(kind) == [b |-> <<>>, end |-> FALSE]
Do(kind, s, p) ==
    LET a == p.a IN
    CASE p.op = "md5" -> Res(s, <<B(Md5(a[1].b)), B(Hex(Md5(a[1].b)))>>)
      [] p.op = "md5s" -> Res(s, <<B(Md5(a[1].b)), B(Hex(Md5(a[1].b)))>>)
      [] p.op = "md5eq" -> Res(s, <<Bool(Md5(a[1].b) = Md5(a[2].b))>>)
      [] p.op = "words" -> Res(s, <<Bool(a[1].b = a[2].b)>>)                 \* md5_eq on given digests
      [] p.op = "add" -> IF s.end THEN Res(s, <<N(0)>>) ELSE Res([s EXCEPT !.b = @ \o a[1].b], <<N(1)>>)
      [] p.op = "end" -> Res([s EXCEPT !.end = TRUE], <<Bool(~s.end)>>)
      [] p.op = "reset" -> Res(Start(kind), <<N(0)>>)
      [] p.op = "bytes" -> Res(s, <<IF s.end THEN B(Sha1(s.b)) ELSE Open>>)
      [] p.op = "format" -> Res(s, <<Bool(a[1].n >= 41), IF a[1].n >= 41 THEN (IF s.end THEN B(Hex(Sha1(s.b))) ELSE Open) ELSE Null>>)
=============================================================================
