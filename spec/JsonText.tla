----------------------------- MODULE JsonText -----------------------------
(* formats/json. Strings are byte sequences (UTF-8), a number is a decimal:
   sign, significant digits without outer zeros, and the exponent of the
   first one. A text is a value ("ok"), no JSON ("bad"), or uses what RFC 8259
   excludes but readers commonly let pass ("open": control characters in
   strings, unknown escapes, leading zeros, other white space, lone
   surrogates, NUL, numbers beyond 15 digits).                              *)
EXTENDS TextBase
Ok(v, i) == [st |-> "ok", v |-> v, i |-> i]
Bad == [st |-> "bad", v |-> [t |-> "n"], i |-> 0]
Lax == [st |-> "open", v |-> [t |-> "n"], i |-> 0]
C(s, i) == IF i <= Len(s) THEN s[i] ELSE -1
RECURSIVE Skip(_, _)
Skip(s, i) == IF C(s, i) \in {32, 9, 10, 13} THEN Skip(s, i + 1) ELSE i
Word(s, i, w) == \A k \in 1..Len(w) : C(s, i + k - 1) = w[k]
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
Hex4(s, i) == ((HexVal(s[i]) * 16 + HexVal(s[i + 1])) * 16 + HexVal(s[i + 2])) * 16 + HexVal(s[i + 3])
Are4(s, i) == \A k \in 0..3 : IsHex(C(s, i + k))
\* the rest of a string body from i, acc is what it holds so far
RECURSIVE Body(_, _, _)
Body(s, i, acc) ==
    LET c == C(s, i) e == C(s, i + 1) IN
    IF c = -1 THEN Bad
    ELSE IF c = 34 THEN Ok([t |-> "s", b |-> acc], i + 1)
    ELSE IF c < 32 THEN Lax
    ELSE IF c # 92 THEN Body(s, i + 1, Append(acc, c))
    ELSE IF e = -1 THEN Bad
    ELSE IF e \in {34, 92, 47} THEN Body(s, i + 2, Append(acc, e))
    ELSE IF e = 110 THEN Body(s, i + 2, Append(acc, 10))
    ELSE IF e = 116 THEN Body(s, i + 2, Append(acc, 9))
    ELSE IF e = 114 THEN Body(s, i + 2, Append(acc, 13))
    ELSE IF e = 98 THEN Body(s, i + 2, Append(acc, 8))
    ELSE IF e = 102 THEN Body(s, i + 2, Append(acc, 12))
    ELSE IF e # 117 \/ ~Are4(s, i + 2) THEN Lax
    ELSE LET u == Hex4(s, i + 2) IN
         IF u = 0 THEN Lax
         ELSE IF u \in 55296..56319 THEN
              (IF C(s, i + 6) = 92 /\ C(s, i + 7) = 117 /\ Are4(s, i + 8) /\ Hex4(s, i + 8) \in 56320..57343
               THEN Body(s, i + 12, acc \o Enc8(65536 + (u - 55296) * 1024 + (Hex4(s, i + 8) - 56320))) ELSE Lax)
         ELSE IF u \in 56320..57343 THEN Lax
         ELSE Body(s, i + 6, acc \o Enc8(u))
StrAt(s, i) == IF C(s, i) = 34 THEN Body(s, i + 1, <<>>) ELSE Bad
RECURSIVE ToInt(_, _)
ToInt(d, acc) == IF d = <<>> THEN acc ELSE ToInt(Tail(d), acc * 10 + d[1] - 48)
\* a number token given by its parts
Decimal(neg, int, frac, exp) ==
    LET d == int \o frac
        z == Span(d, {48})
        m == RightTrim(Rest(d, z), {48})
    IN IF m = <<>> THEN [t |-> "#", neg |-> FALSE, d |-> <<>>, e |-> 0]
       ELSE [t |-> "#", neg |-> neg, d |-> m, e |-> Len(int) - z - 1 + exp]
NumAt(s, i) ==
    LET r == Rest(s, i - 1)
        n == NumLen(r)
        tok == Cut(r, n)
        neg == tok[1] = 45
        b == IF neg THEN Tail(tok) ELSE tok
        int == Run(b, Digits)
        b2 == Rest(b, Len(int))
        frac == IF b2 # <<>> /\ b2[1] = 46 THEN Run(Tail(b2), Digits) ELSE <<>>
        b3 == IF b2 # <<>> /\ b2[1] = 46 THEN Rest(b2, 1 + Len(frac)) ELSE b2
        eb == IF b3 = <<>> THEN <<>> ELSE Tail(b3)
        eneg == eb # <<>> /\ eb[1] = 45
        ed == IF eb # <<>> /\ eb[1] \in {43, 45} THEN Tail(eb) ELSE eb
    IN IF n < 0 THEN Bad
       ELSE IF n > 90 \/ Len(ed) > 3 THEN Lax
       ELSE IF Len(int) > 1 /\ int[1] = 48 THEN Lax
       ELSE LET v == Decimal(neg, int, frac, IF eneg THEN -ToInt(ed, 0) ELSE ToInt(ed, 0)) IN
            IF Len(v.d) > 15 \/ v.e > 300 \/ v.e < -290 THEN Lax ELSE Ok(v, i + n)
True == [t |-> "t"]
False == [t |-> "f"]
None == [t |-> "n"]
\* a later value replaces the one at its key
Put2(ks, vs, k, v) == LET p == { j \in 1..Len(ks) : ks[j] = k } IN
                     IF p = {} THEN [t |-> "{", k |-> Append(ks, k), v |-> Append(vs, v)]
                     ELSE [t |-> "{", k |-> ks, v |-> [vs EXCEPT ![CHOOSE j \in p : TRUE] = v]]
RECURSIVE ValAt(_, _), Items(_, _, _), Pairs(_, _, _)
ValAt(s, j) ==
    LET i == Skip(s, j) c == C(s, i) IN
    IF c = -1 THEN Bad
    ELSE IF c = 34 THEN StrAt(s, i)
    ELSE IF c = 91 THEN LET k == Skip(s, i + 1) IN IF C(s, k) = 93 THEN Ok([t |-> "[", v |-> <<>>], k + 1) ELSE Items(s, i + 1, <<>>)
    ELSE IF c = 123 THEN LET k == Skip(s, i + 1) IN IF C(s, k) = 125 THEN Ok([t |-> "{", k |-> <<>>, v |-> <<>>], k + 1)
                                                    ELSE Pairs(s, i + 1, [t |-> "{", k |-> <<>>, v |-> <<>>])
    ELSE IF c = 45 \/ c \in Digits THEN NumAt(s, i)
    ELSE IF Word(s, i, <<116, 114, 117, 101>>) THEN Ok(True, i + 4)
    ELSE IF Word(s, i, <<102, 97, 108, 115, 101>>) THEN Ok(False, i + 5)
    ELSE IF Word(s, i, <<110, 117, 108, 108>>) THEN Ok(None, i + 4)
    ELSE IF c \in {11, 12} THEN Lax ELSE Bad
Items(s, i, acc) ==
    LET r == ValAt(s, i) j == Skip(s, r.i) IN
    IF r.st # "ok" THEN r
    ELSE IF C(s, j) = 44 THEN Items(s, j + 1, Append(acc, r.v))
    ELSE IF C(s, j) = 93 THEN Ok([t |-> "[", v |-> Append(acc, r.v)], j + 1)
    ELSE IF C(s, j) \in {11, 12} THEN Lax ELSE Bad
Pairs(s, i, o) ==
    LET q == StrAt(s, Skip(s, i))
        j == Skip(s, q.i)
        r == ValAt(s, j + 1)
        k == Skip(s, r.i)
        o2 == Put2(o.k, o.v, q.v.b, r.v)
    IN IF C(s, Skip(s, i)) \in {11, 12} THEN Lax
       ELSE IF q.st # "ok" THEN q
       ELSE IF C(s, j) \in {11, 12} THEN Lax
       ELSE IF C(s, j) # 58 THEN Bad
       ELSE IF r.st # "ok" THEN r
       ELSE IF C(s, k) = 44 THEN Pairs(s, k + 1, o2)
       ELSE IF C(s, k) = 125 THEN Ok(o2, k + 1)
       ELSE IF C(s, k) \in {11, 12} THEN Lax ELSE Bad
Parse(s) == LET r == ValAt(s, 1) j == Skip(s, r.i) IN
            IF r.st # "ok" THEN r
            ELSE IF j > Len(s) THEN r
            ELSE IF C(s, j) \in {11, 12} THEN Lax ELSE Bad
\* what the driver prints of a value; numbers as by %.14e
Pad(d, n) == d \o [k \in 1..(n - Len(d)) |-> 48]
NumText(v) == LET d == Pad(v.d, 15)
                  a == IF v.e < 0 THEN -v.e ELSE v.e
              IN (IF v.neg THEN <<45>> ELSE <<>>) \o <<d[1], 46>> \o Tail(d) \o <<101, IF v.e < 0 THEN 45 ELSE 43>> \o (IF a < 10 THEN <<48>> ELSE <<>>) \o Dec(a)
StrText(b) == <<34>> \o HexAll(b) \o <<59>>
RECURSIVE Dump(_)
Dump(v) == CASE v.t = "n" -> <<110>> [] v.t = "t" -> <<116>> [] v.t = "f" -> <<102>>
             [] v.t = "s" -> StrText(v.b)
             [] v.t = "#" -> <<35>> \o NumText(v) \o <<59>>
             [] v.t = "[" -> <<91>> \o Flat([k \in 1..Len(v.v) |-> Dump(v.v[k])]) \o <<93>>
             [] OTHER -> <<123>> \o Flat([k \in 1..Len(v.v) |-> StrText(v.k[k]) \o Dump(v.v[k])]) \o <<125>>
\* ---- a canonical writer, for the laws
RECURSIVE Esc(_)
Esc(b) == IF b = <<>> THEN <<>>
          ELSE (IF b[1] \in {34, 92} THEN <<92, b[1]>> ELSE IF b[1] < 32 THEN <<92, 117, 48, 48>> \o Hex2(b[1], FALSE) ELSE <<b[1]>>) \o Esc(Tail(b))
Quote(b) == <<34>> \o Esc(b) \o <<34>>
RECURSIVE Show(_), List(_, _)
List(ss, first) == IF ss = <<>> THEN <<>> ELSE (IF first THEN <<>> ELSE <<44>>) \o ss[1] \o List(Tail(ss), FALSE)
Show(v) == CASE v.t = "n" -> <<110, 117, 108, 108>> [] v.t = "t" -> <<116, 114, 117, 101>> [] v.t = "f" -> <<102, 97, 108, 115, 101>>
              [] v.t = "s" -> Quote(v.b)
              [] v.t = "#" -> NumText(v)
              [] v.t = "[" -> <<91>> \o List([k \in 1..Len(v.v) |-> Show(v.v[k])], TRUE) \o <<93>>
              [] OTHER -> <<123>> \o List([k \in 1..Len(v.v) |-> Quote(v.k[k]) \o <<58>> \o Show(v.v[k])], TRUE) \o <<125>>
\* ---- the module: one value
TypeNo(v) == CASE v.t = "n" -> 1 [] v.t = "[" -> 2 [] v.t = "{" -> 3 [] v.t = "s" -> 4 [] v.t = "#" -> 5 [] OTHER -> 6
Kids(v) == IF v.t \in {"[", "{"} THEN v.v ELSE <<>>
At(v, k) == LET p == { j \in 1..Len(Kids(v)) : v.t = "{" /\ v.k[j] = k } IN IF p = {} THEN Null ELSE B(Dump(v.v[CHOOSE j \in p : TRUE]))
DoJson(s, p) ==
    IF p.op = "parse" THEN LET r == Parse(p.a[1].b) IN
        Res(r, CASE r.st = "ok" -> <<B(Dump(r.v))>> [] r.st = "bad" -> <<Null>> [] OTHER -> <<Open>>)
    ELSE IF p.op = "wstring" THEN Res(s, <<Open>>)
    ELSE IF s.st # "ok" THEN Res(IF p.op = "put" /\ s.st = "open" THEN s ELSE s, <<Open>>)
    ELSE LET v == s.v IN
    CASE p.op = "len" -> Res(s, IF v.t \in {"[", "{"} THEN <<N(Len(v.v))>> ELSE <<N(0)>>)
      [] p.op = "type" -> Res(s, <<N(TypeNo(v))>>)
      [] p.op = "get" -> Res(s, <<At(v, p.a[1].b)>>)
      [] p.op = "key" -> Res(s, IF v.t = "{" /\ p.a[1].n < Len(v.k) THEN <<B(v.k[p.a[1].n + 1])>> ELSE <<Null>>)
      [] p.op = "val" -> Res(s, IF p.a[1].n < Len(Kids(v)) THEN <<B(Dump(v.v[p.a[1].n + 1]))>> ELSE <<Null>>)
      [] p.op = "put" -> LET q == Parse(p.a[2].b) IN
                         IF v.t = "{" THEN Res([s EXCEPT !.v = Put2(v.k, v.v, p.a[1].b, q.v)], <<N(1)>>) ELSE Res(s, <<N(0)>>)
      [] p.op = "str" -> Res(s, IF v.t = "s" THEN <<B(v.b)>> ELSE <<Null>>)
      [] p.op \in {"format", "formatwr"} -> Res(s, <<Open>>)
      [] OTHER -> Res(s, <<B(Dump(v))>>)  \* clone, dump
Start(c) == [st |-> "none", v |-> None, i |-> 0]
Do(c, s, p) == DoJson(s, p)
=============================================================================
