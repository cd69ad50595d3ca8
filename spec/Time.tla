-------------------------------- MODULE Time --------------------------------
(* lib/time: durations, calendar dates, ISO timestamps and local time.
   A duration is a number of seconds and microseconds; an instant a number of
   days since 1970-01-01 and the seconds of that day.                         *)
EXTENDS TextBase
Start(kind) == 0
Unspec == <<N(-1)>>

\* ---- calendar
Leap(y) == (y % 4 = 0 /\ y % 100 # 0) \/ y % 400 = 0
DaysIn(y, m) == CASE m \in {1, 3, 5, 7, 8, 10, 12} -> 31 [] m = 2 -> IF Leap(y) THEN 29 ELSE 28 [] OTHER -> 30
Cumul == <<0, 31, 59, 90, 120, 151, 181, 212, 243, 273, 304, 334>>
\* days before the year y, counted from year 1
Before(y) == LET p == y - 1 IN 365 * p + (p \div 4) - (p \div 100) + (p \div 400)
Days(y, m, d) == Before(y) + Cumul[m] + (IF m > 2 /\ Leap(y) THEN 1 ELSE 0) + d - 719163
YearOf(n) == LET g == ((n + 719162) \div 366) + 1 IN CHOOSE y \in g..(g + 22) : Days(y, 1, 1) <= n /\ n < Days(y + 1, 1, 1)
Civil(n) == LET y == YearOf(n)
                m == CHOOSE m \in 1..12 : Days(y, m, 1) <= n /\ n < Days(y, m, 1) + DaysIn(y, m)
            IN <<y, m, n - Days(y, m, 1) + 1>>
Date(y, m, d) == y \in 1..9999 /\ m \in 1..12 /\ d \in 1..DaysIn(y, m)
\* 0 is Sunday
Weekday(n) == (n + 4) % 7
\* days and seconds with the seconds brought into the day
Inst(n, s) == <<n + (s \div 86400), s % 86400>>
ClockOf(s) == <<s \div 3600, (s \div 60) % 60, s % 60>>
Fields(n, s) == LET i == Inst(n, s) IN Civil(i[1]) \o ClockOf(i[2])

\* ---- zones: minutes east, and whether the summer time rule of the US applies
Sunday(n) == n + ((7 - Weekday(n)) % 7)
Later(a, b) == a[1] > b[1] \/ (a[1] = b[1] /\ a[2] >= b[2])
Offset(zone, us, n, s) ==
    LET l == Inst(n, s + 60 * zone)
        y == Civil(l[1])[1]
        from == <<Sunday(Days(y, 3, 1)) + 7, 7200>>
        to == <<Sunday(Days(y, 11, 1)), 3600>>
    IN IF us /\ Later(l, from) /\ ~Later(l, to) THEN zone + 60 ELSE zone

\* ---- text
RECURSIVE Wide(_, _)
Wide(n, w) == LET d == Dec(n) IN IF Len(d) < w THEN [k \in 1..(w - Len(d)) |-> 48] \o d ELSE d
Fmt(f, s, us) ==
    LET ms == us \div 1000
        h == s \div 3600
        m == (s \div 60) % 60
        sc == s % 60
        mm == s \div 60
    IN CASE f = "logfile" -> (IF mm > 0 THEN Dec(mm) \o <<109, 32>> ELSE <<>>) \o Dec(sc) \o <<46>> \o Wide(ms, 3) \o <<48, 48, 48, 32, 115>>
         [] f = "mm:ss" -> Wide(mm, 2) \o <<58>> \o Wide(sc, 2)
         [] f = "mm:ss.ms" -> Wide(mm, 2) \o <<58>> \o Wide(sc, 2) \o <<46>> \o Wide(ms, 3)
         [] f = "hh:mm:ss,ms" -> Wide(h, 2) \o <<58>> \o Wide(m, 2) \o <<58>> \o Wide(sc, 2) \o <<44>> \o Wide(ms, 3)
         [] OTHER -> (IF h > 0 THEN Dec(h) \o <<58>> \o Wide(m, 2) ELSE Dec(m)) \o <<58>> \o Wide(sc, 2) \o <<46>> \o Wide(ms, 3)
Formats == <<"logfile", "mm:ss", "mm:ss.ms", "hh:mm:ss,ms", "[h]:mm:ss.mmm">>

RECURSIVE ValOf(_, _)
ValOf(t, acc) == IF t = <<>> THEN acc ELSE ValOf(Tail(t), 10 * acc + t[1] - 48)
Val(t) == ValOf(t, 0)
\* the first k digits of a fraction
Frac(t, k) == Val(Cut(t \o [j \in 1..k |-> 48], k))
\* number { separator number }: the values read, the rest, and what stopped it
RECURSIVE Nums(_, _, _)
Nums(t, seps, vals) ==
    LET r == Run(t, Digits)
        q == Rest(t, Len(r))
        v == Append(vals, r)
    IN IF r = <<>> THEN [st |-> "nonum", v |-> vals, rest |-> t]
       ELSE IF seps = <<>> THEN [st |-> "ok", v |-> v, rest |-> q]
       ELSE IF q = <<>> \/ q[1] # seps[1] THEN [st |-> "nosep", v |-> v, rest |-> q]
       ELSE Nums(Tail(q), Tail(seps), v)
Fits(v) == \A k \in 1..Len(v) : Len(v[k]) <= 9
\* [hh:]mm:ss[.xxx]
ParseDur(t) ==
    LET a == Nums(t, <<58, 58>>, <<>>)
        v == a.v
        q == a.rest
        f == IF q # <<>> /\ q[1] = 46 THEN Run(Tail(q), Digits) ELSE <<>>
        r == IF q # <<>> /\ q[1] = 46 THEN Rest(q, 1 + Len(f)) ELSE q
        us == Frac(f, 6)
    IN IF ~Fits(v) THEN Unspec
       ELSE IF a.st = "nonum" \/ Len(v) < 2 \/ r # <<>> THEN <<N(0), N(1)>>
       ELSE IF q # <<>> /\ f = <<>> THEN Unspec
       ELSE IF \E k \in 1..Len(v) : Val(v[k]) > 100000 THEN Unspec
       ELSE <<N(1), N(IF Len(v) = 2 THEN 60 * Val(v[1]) + Val(v[2]) ELSE 3600 * Val(v[1]) + 60 * Val(v[2]) + Val(v[3])), N(us)>>

\* ---- ISO: <<Y, M, D, h, m, s, ms, zone hours, zone minutes>>
Two(n) == Wide(n, 2)
Abs(n) == IF n < 0 THEN -n ELSE n
FmtIso(x) ==
    LET z == x[8] * 60 + x[9] IN
    Wide(x[1], 4) \o <<45>> \o Two(x[2]) \o <<45>> \o Two(x[3]) \o <<84>> \o Two(x[4]) \o <<58>> \o Two(x[5]) \o <<58>> \o Two(x[6])
    \o <<46>> \o Wide(x[7], 3)
    \o (IF z = 0 THEN <<90>> ELSE <<IF z < 0 THEN 45 ELSE 43>> \o Two(Abs(z) \div 60) \o <<58>> \o Two(Abs(z) % 60))
ParseIso(t) ==
    LET a == Nums(t, <<45, 45, 84, 58, 58>>, <<>>)
        q == a.rest
        dot == q # <<>> /\ q[1] = 46
        f == IF dot THEN Run(Tail(q), Digits) ELSE <<>>
        z == IF dot THEN Rest(q, 1 + Len(f)) ELSE q
        zn == IF z # <<>> /\ z[1] \in {43, 45} THEN Nums(Tail(z), <<58>>, <<>>) ELSE [st |-> "ok", v |-> <<<<48>>, <<48>>>>, rest |-> IF z = <<>> THEN z ELSE Tail(z)]
        sg == IF z # <<>> /\ z[1] = 45 THEN -1 ELSE 1
        v == [k \in 1..Len(a.v) |-> Val(a.v[k])]
    IN IF ~Fits(a.v) \/ a.st = "nonum" THEN Unspec
       ELSE IF a.st = "nosep" THEN <<Panic>>
       ELSE IF dot /\ f = <<>> THEN Unspec
       ELSE IF z = <<>> \/ z[1] \notin {90, 43, 45} THEN <<Panic>>
       ELSE IF zn.st = "nosep" THEN <<Panic>>
       ELSE IF zn.st # "ok" \/ zn.rest # <<>> \/ ~Fits(zn.v) THEN Unspec
       ELSE IF ~Date(v[1], v[2], v[3]) \/ v[4] > 23 \/ v[5] > 59 \/ v[6] > 59 \/ Val(zn.v[1]) > 23 \/ Val(zn.v[2]) > 59 THEN Unspec
       ELSE [k \in 1..6 |-> N(v[k])] \o <<N(Frac(f, 3)), N(sg * Val(zn.v[1])), N(sg * Val(zn.v[2]))>>
\* the instant of an ISO time: days, seconds
InstOf(x) == Inst(Days(x[1], x[2], x[3]), 3600 * (x[4] - x[8]) + 60 * (x[5] - x[9]) + x[6])
\* a - b as whole days and the rest in milliseconds
Diff(a, b) == LET i == InstOf(a)
                  j == InstOf(b)
                  ms == (i[2] - j[2]) * 1000 + a[7] - b[7]
              IN <<(i[1] - j[1]) + (ms \div 86400000), ms % 86400000>>
Arg(p, k, n) == [j \in 1..n |-> p.a[k + j - 1].n]
Ns(q) == [k \in 1..Len(q) |-> N(q[k])]
Fitting(t, size) == IF Len(t) < size THEN <<N(1), B(t)>> ELSE <<N(0)>>
Norm(s, us) == Ns(<<s + (us \div 1000000), us % 1000000>>)
Out(c, p) ==
    CASE p.op = "fmt" -> Fitting(Fmt(Formats[p.a[1].n], p.a[2].n, p.a[3].n), p.a[4].n)
      [] p.op = "parse" -> ParseDur(p.a[1].b)
      [] p.op = "add" -> Norm(p.a[1].n + p.a[3].n, p.a[2].n + p.a[4].n)
      \* a count of units: 1 us, 2 ms, 3 seconds, 4 minutes
      [] p.op = "dur" -> LET v == p.a[1].n IN
             CASE p.a[2].n = 1 -> Norm(0, v) [] p.a[2].n = 2 -> Norm(v \div 1000, 1000 * (v % 1000)) [] p.a[2].n = 3 -> Norm(v, 0) [] OTHER -> Norm(60 * v, 0)
      [] p.op = "unix" -> Ns(Fields(p.a[1].n, p.a[2].n)) \o <<N(0), N(0), N(0)>>
      [] p.op = "isoparse" -> ParseIso(p.a[1].b)
      [] p.op = "isofmt" -> Fitting(FmtIso(Arg(p, 1, 9)), p.a[10].n)
      [] p.op = "sub" -> Ns(Diff(Arg(p, 1, 9), Arg(p, 10, 9)))
      [] OTHER -> LET x == Arg(p, 4, 7)
                      n == Days(x[1], x[2], x[3])
                      s == 3600 * x[4] + 60 * x[5] + x[6]
                  IN Ns(Fields(n, s + 60 * Offset(p.a[2].n, p.a[3].n = 1, n, s))) \o <<N(x[7])>>
Do(c, s, p) == Res(s, Out(c, p))
=============================================================================
