--------------------------------- MODULE Opt ---------------------------------
(* lib/opt: declared one-letter options, parsed from an argument list.
   The parser walks the arguments: an option word moves on by one or, when it
   takes a value, by two; the first other word ends the options.             *)
EXTENDS TextBase

Start(kind) == [decl |-> <<>>, nargs |-> -1, cmds |-> <<>>]
Bad == [st |-> "bad", vals |-> <<>>, at |-> 0]
Ok(vals, at) == [st |-> "ok", vals |-> vals, at |-> at]

First(d, c) == LET S == { i \in 1..Len(d) : d[i].c = c } IN IF S = {} THEN 0 ELSE CHOOSE i \in S : \A j \in S : i <= j
AllDigits(t) == t # <<>> /\ \A i \in 1..Len(t) : Digit(t[i])
IsNeg(t) == t # <<>> /\ t[1] = 45
Body(t) == IF IsNeg(t) THEN Tail(t) ELSE t
RECURSIVE NoZeros(_)
NoZeros(t) == IF Len(t) > 1 /\ t[1] = 48 THEN NoZeros(Tail(t)) ELSE t
RECURSIVE LessEq(_, _)
LessEq(a, b) == IF Len(a) # Len(b) THEN Len(a) < Len(b) ELSE a = <<>> \/ a[1] < b[1] \/ (a[1] = b[1] /\ LessEq(Tail(a), Tail(b)))
IntTop == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 55>>
IntLow == <<50, 49, 52, 55, 52, 56, 51, 54, 52, 56>>
\* the value an option of type t takes from a word, as canonical decimal text, or "bad"
Value(t, w) ==
    LET b == NoZeros(Body(w)) IN
    CASE t = 115 -> [st |-> "ok", v |-> w]                                        \* s
      [] t = 105 -> IF ~AllDigits(Body(w)) THEN [st |-> "bad", v |-> w]               \* i
                    ELSE IF ~LessEq(b, IF IsNeg(w) THEN IntLow ELSE IntTop) THEN [st |-> "bad", v |-> w]
                    ELSE [st |-> "ok", v |-> IF IsNeg(w) /\ b # <<48>> THEN <<45>> \o b ELSE b]
      [] t = 122 -> IF ~AllDigits(w) THEN [st |-> "bad", v |-> w]                     \* z
                    ELSE IF Len(b) > 19 THEN [st |-> "open", v |-> w] ELSE [st |-> "ok", v |-> b]
      [] t = 102 -> IF AllDigits(Body(w)) /\ Len(b) < 7                               \* f (whole numbers)
                    THEN [st |-> "ok", v |-> IF IsNeg(w) THEN <<45>> \o b ELSE b]
                    ELSE IF w = <<>> \/ ~(Digit(w[1]) \/ w[1] \in {43, 45, 46, 105, 73, 110, 78} \/ Space(w[1]))
                    THEN [st |-> "bad", v |-> w] ELSE [st |-> "open", v |-> w]

RECURSIVE Walk(_, _, _, _)
RECURSIVE Group(_, _, _, _)
Walk(d, av, i, vals) ==
    IF i > Len(av) THEN Ok(vals, i)
    ELSE LET w == av[i] IN
    IF w = <<>> \/ w[1] # 45 \/ Len(w) = 1 THEN Ok(vals, i)
    ELSE IF Len(w) > 2
    THEN LET g == Group(d, w, 2, vals) IN IF g.st # "ok" THEN g ELSE Walk(d, av, i + 1, g.vals)
    ELSE LET k == First(d, w[2]) IN
         IF k = 0 THEN [Bad EXCEPT !.st = IF w[2] = 104 THEN "help" ELSE "bad"]
         ELSE IF d[k].t = 98 THEN Walk(d, av, i + 1, [vals EXCEPT ![k] = <<49>>])
         ELSE IF i = Len(av) THEN Bad
         ELSE LET v == Value(d[k].t, av[i + 1]) IN
              IF v.st # "ok" THEN [Bad EXCEPT !.st = v.st] ELSE Walk(d, av, i + 2, [vals EXCEPT ![k] = v.v])
\* a run of boolean options
Group(d, w, j, vals) ==
    IF j > Len(w) THEN Ok(vals, 0)
    ELSE LET k == First(d, w[j]) IN
         IF k = 0 THEN [Bad EXCEPT !.st = IF w[j] = 104 THEN "help" ELSE "bad"]
         ELSE IF d[k].t # 98 THEN Bad
         ELSE Group(d, w, j + 1, [vals EXCEPT ![k] = <<49>>])

\* values not given stay as they were: 0, false, 7 for strings "(unset)"
Default(t) == IF t = 115 THEN <<>> ELSE <<48>>
Parse(s, av) ==
    LET r == Walk(s.decl, av, 1, [i \in 1..Len(s.decl) |-> Default(s.decl[i].t)])
        n == Len(av) - r.at + 1
    IN IF r.st = "ok" /\ s.nargs >= 0 /\ n # s.nargs THEN Bad ELSE r
Words(a) == [i \in 1..Len(a) |-> a[i].b]
Texts(ts) == [i \in 1..Len(ts) |-> B(ts[i])]

Do(kind, s, p) ==
    LET a == p.a IN
    CASE p.op = "decl" -> IF Len(a[2].b) # 1 \/ Len(s.decl) = 32 THEN Res(s, <<Panic>>)
                          ELSE Res([s EXCEPT !.decl = Append(@, [t |-> a[1].n, c |-> a[2].b[1]])], <<N(0)>>)
      [] p.op = "nargs" -> Res([s EXCEPT !.nargs = a[1].n], <<N(0)>>)
      [] p.op = "parse" -> LET r == Parse(s, Words(a)) IN
            CASE r.st = "ok" -> Res(s, Texts(r.vals) \o <<N(Len(a) - r.at + 1)>> \o Texts(SubSeq(Words(a), r.at, Len(a))))
              [] r.st \in {"bad", "help"} -> Res(s, <<Panic>>)
              [] OTHER -> Res(s, <<N(-1)>>)                       \* not judged: skipped by the harness
      [] p.op = "cmd" -> IF Len(s.cmds) = 10 THEN Res(s, <<Panic>>) ELSE Res([s EXCEPT !.cmds = Append(@, a[1].b)], <<N(0)>>)
      [] p.op = "dispatch" ->                                      \* which command gets which arguments, and the status
            LET S == { i \in 1..Len(s.cmds) : Len(a) > 0 /\ s.cmds[i] = a[1].b } IN
            IF S = {} THEN Res(s, <<N(1)>>)
            ELSE LET k == CHOOSE i \in S : \A j \in S : i <= j IN
                 Res(s, <<N(k), N(Len(a))>> \o Texts(Words(a)) \o <<N(100 + k)>>)
=============================================================================
