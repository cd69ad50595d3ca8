-------------------------------- MODULE Docs --------------------------------
(* Text documents and messages of lib: protocols/http, protocols/cgi,       *)
(* formats/xml, formats/srt, formats/vtt, formats/cue.  Byte strings in,    *)
(* fields out.  <<N(-1)>> marks input that is not judged.                   *)
EXTENDS TextBase, SequencesExt
NJ == <<N(-1)>>
CR == 13
NL == 10
CRLF == <<13, 10>>
Until(s, c) == Run(s, (0..255) \ {c})
Trim(s) == RightTrim(LeftTrim(s, Spaces), Spaces)
Val(ds) == FoldLeft(LAMBDA a, d : a * 10 + (d - 48), 0, ds)

-----------------------------------------------------------------------------
(* HTTP.  A header is a name up to a colon, a colon with a space, a value   *)
(* up to a line end; an empty line ends the list.                           *)
RECURSIVE Headers(_, _)
Headers(s, acc) ==
    IF Begins(s, CRLF) THEN [ok |-> TRUE, h |-> acc, rest |-> Rest(s, 2), odd |-> FALSE]
    ELSE LET name == Until(s, 58)
             s1 == Rest(s, Len(name))
             val == Until(Rest(s1, 2), CR)
             s2 == Rest(s1, 2 + Len(val))
         IN  IF s = <<>> THEN [ok |-> FALSE, h |-> acc, rest |-> s, odd |-> TRUE]
             ELSE IF Len(acc) = 100 \/ Len(name) > 1023 \/ ~Begins(s1, <<58, 32>>) \/ Len(val) > 1023 \/ ~Begins(s2, CRLF)
             THEN [ok |-> FALSE, h |-> acc, rest |-> s, odd |-> FALSE]
             ELSE IF In(CR, name) \/ In(NL, name) THEN [ok |-> FALSE, h |-> acc, rest |-> s, odd |-> TRUE]
             ELSE Headers(Rest(s2, 2), Append(acc, <<name, val>>))

Pairs(h) == Flat([k \in 1..Len(h) |-> <<B(h[k][1]), B(h[k][2])>>])
LastSlash(p) == LET ks == {k \in 1..Len(p) : p[k] = 47} IN IF ks = {} THEN 0 ELSE Max(ks)

Request(s) ==
    LET m == Until(s, 32)
        s1 == Rest(s, Len(m))
        u == Until(Tail(s1), 32)
        s2 == Rest(s1, 1 + Len(u))
        v == Until(Tail(s2), CR)
        s3 == Rest(s2, 1 + Len(v))
        h == Headers(Rest(s3, 2), <<>>)
        path == Until(u, 63)
        query == IF Len(path) < Len(u) THEN Rest(u, Len(path) + 1) ELSE <<>>
        file == IF LastSlash(path) = 0 THEN <<>> ELSE Rest(path, LastSlash(path))
    IN  IF Len(m) > 9 \/ s1 = <<>> \/ Len(u) > 1023 \/ s2 = <<>> \/ Len(v) > 9 \/ ~Begins(s3, CRLF) THEN <<N(0)>>
        ELSE IF ~h.ok THEN (IF h.odd /\ h.rest # <<>> THEN NJ ELSE <<N(0)>>)
        ELSE <<N(1), B(m), B(u), B(v), B(path), B(query), B(file), N(Len(h.h))>> \o Pairs(h.h)

H10 == <<72, 84, 84, 80, 47, 49, 46, 48>>
H11 == <<72, 84, 84, 80, 47, 49, 46, 49>>
ContentLength == <<67, 111, 110, 116, 101, 110, 116, 45, 76, 101, 110, 103, 116, 104>>
Connection == <<67, 111, 110, 110, 101, 99, 116, 105, 111, 110>>
Close == <<99, 108, 111, 115, 101>>
Lookup(h, name) == LET ks == {k \in 1..Len(h) : h[k][1] = name} IN IF ks = {} THEN <<>> ELSE <<h[Min(ks)][2]>>

Response(s) ==
    LET st == SubSeq(s, 10, 12)
        t == Until(Rest(s, 13), CR)
        s1 == Rest(s, 13 + Len(t))
        h == Headers(Rest(s1, 2), <<>>)
        cl == Lookup(h.h, ContentLength)
        cn == Lookup(h.h, Connection)
        n == Val(cl[1])
        head == <<N(1), B(Cut(s, 8)), N(Val(st)), N(Len(h.h))>> \o Pairs(h.h)
    IN  IF ~(Len(s) >= 13 /\ Cut(s, 8) \in {H10, H11} /\ s[9] = 32 /\ (\A k \in 1..3 : Digit(st[k])) /\ s[13] = 32 /\ Begins(s1, CRLF)) THEN <<N(0)>>
        ELSE IF ~h.ok THEN (IF h.odd THEN NJ ELSE <<N(0)>>)
        ELSE IF cl # <<>>
        THEN IF cl[1] = <<>> \/ Len(cl[1]) > 8 \/ (\E k \in 1..Len(cl[1]) : ~Digit(cl[1][k])) THEN NJ
             ELSE IF n >= 1000 THEN <<Panic>>
             ELSE IF Len(h.rest) < n THEN <<N(0)>>
             ELSE head \o <<B(Cut(h.rest, n))>>
        ELSE IF cn = <<Close>> THEN (IF Len(h.rest) >= 1000 THEN <<Panic>> ELSE head \o <<B(h.rest)>>)
        ELSE <<Panic>>

Methods == << <<71, 69, 84>>, <<80, 79, 83, 84>>, <<72, 69, 65, 68>> >>
MethodOf(s) == LET ks == {k \in 1..3 : FoldAll(Methods[k]) = FoldAll(s)} IN IF ks = {} THEN 0 ELSE Min(ks)

\* A request being made: method, path, parameters, headers.
Text(r) ==
    Methods[r.m] \o <<32>> \o r.path
    \o Flat([k \in 1..Len(r.ps) |-> <<IF k = 1 THEN 63 ELSE 38>> \o r.ps[k][1] \o <<61>> \o UrlAll(r.ps[k][2])])
    \o <<32>> \o H10 \o CRLF
    \o Flat([k \in 1..Len(r.hs) |-> r.hs[k][1] \o <<58, 32>> \o r.hs[k][2] \o CRLF]) \o CRLF

DoHttp(s, p) ==
    CASE p.op = "request" -> Res(s, Request(p.a[1].b))
      [] p.op = "response" -> Res(s, Response(p.a[1].b))
      [] p.op = "method" -> Res(s, <<N(MethodOf(p.a[1].b))>>)
      [] p.op = "new" -> IF p.a[1].n \in 1..3 /\ Len(p.a[2].b) < 1024
                         THEN Res([m |-> p.a[1].n, path |-> p.a[2].b, ps |-> <<>>, hs |-> <<>>], <<N(1)>>)
                         ELSE Res(s, <<Panic>>)
      [] p.op = "param" -> IF Len(s.ps) = 100 \/ Len(p.a[1].b) > 1023 \/ Len(p.a[2].b) > 1024 THEN Res(s, <<Panic>>)
                           ELSE Res([s EXCEPT !.ps = Append(@, <<p.a[1].b, p.a[2].b>>)], <<N(1)>>)
      [] p.op = "header" -> IF Len(s.hs) = 100 \/ Len(p.a[1].b) > 1023 \/ Len(p.a[2].b) > 1023 THEN Res(s, <<N(0)>>)
                            ELSE Res([s EXCEPT !.hs = Append(@, <<p.a[1].b, p.a[2].b>>)], <<N(1)>>)
      [] p.op = "get" -> Res(s, LET x == Lookup(s.hs, p.a[1].b) IN IF x = <<>> THEN <<Null>> ELSE <<B(x[1])>>)
      [] p.op = "write" -> Res(s, <<N(Len(Text(s))), B(Text(s))>>)

-----------------------------------------------------------------------------
(* The head of a CGI script's output; lines end in LF or CR LF.             *)
Eol(s) == IF Begins(s, CRLF) THEN 2 ELSE IF s # <<>> /\ s[1] \in {CR, NL} THEN 1 ELSE 0
RECURSIVE CgiHead(_, _, _)
CgiHead(s, n, acc) ==
    LET name == Until(s, 58)
        s1 == LeftTrim(Rest(s, Len(name) + 1), {32, 9})
        val == Run(s1, (0..255) \ {CR, NL})
        s2 == Rest(s1, Len(val))
        s3 == Rest(s2, Eol(s2))
        e == Eol(s3)
    IN  IF Len(name) = Len(s) \/ s1 = <<>> \/ s2 = <<>> \/ Len(name) > 999 \/ Len(val) > 999 \/ Len(acc) = 100 THEN <<N(0)>>
        ELSE IF In(NL, name) \/ In(CR, name) THEN NJ
        ELSE LET h == Append(acc, <<name, val>>) IN
             IF e > 0 THEN <<N(n - Len(s3) + e), N(Len(h))>> \o Pairs(h)
             ELSE CgiHead(s3, n, h)
DoCgi(p) == CgiHead(p.a[1].b, Len(p.a[1].b), <<>>)

-----------------------------------------------------------------------------
(* XML: tags with attributes, nothing else.  The cursor is the number of    *)
(* the current tag (0: past the last sibling) under a stack of open tags.   *)
No == [ok |-> FALSE]
RECURSIVE Attrs(_, _)
Attrs(s, acc) ==
    LET s1 == LeftTrim(s, Spaces)
        name == Run(s1, Letters)
        s2 == Rest(s1, Len(name))
        val == Until(Rest(s2, 2), 34)
    IN  IF name = <<>> THEN [ok |-> TRUE, a |-> acc, rest |-> s1]
        ELSE IF Len(acc) = 64 \/ Len(name) > 15 \/ ~Begins(s2, <<61, 34>>) \/ Len(val) > 4095 \/ Len(s2) < Len(val) + 3 THEN No
        ELSE Attrs(Rest(s2, Len(val) + 3), Append(acc, <<name, val>>))
RECURSIVE TagsOf(_, _)
TagsOf(s0, acc) ==
    LET s == LeftTrim(s0, Spaces)
        shut == Begins(s, <<60, 47>>)
        name == Run(Rest(s, IF shut THEN 2 ELSE 1), Letters)
        s1 == Rest(s, Len(name) + (IF shut THEN 2 ELSE 1))
        at == Attrs(s1, <<>>)
    IN  IF s = <<>> THEN [ok |-> TRUE, t |-> acc]
        ELSE IF s[1] # 60 \/ Len(name) \notin 1..15 THEN No
        ELSE IF shut THEN (IF Begins(s1, <<62>>) THEN TagsOf(Tail(s1), Append(acc, [k |-> "shut", name |-> name, a |-> <<>>])) ELSE No)
        ELSE IF ~at.ok THEN No
        ELSE IF Begins(at.rest, <<62>>) THEN TagsOf(Tail(at.rest), Append(acc, [k |-> "open", name |-> name, a |-> at.a]))
        ELSE IF Begins(at.rest, <<47, 62>>) THEN TagsOf(Rest(at.rest, 2), Append(acc, [k |-> "mono", name |-> name, a |-> at.a]))
        ELSE No
\* The stack of open tags after each tag; <<-1>> if the tags do not match.
Stacks(t) == FoldLeft(LAMBDA acc, k :
        LET top == acc[Len(acc)] IN
        Append(acc, IF top = <<-1>> THEN top
                    ELSE IF t[k].k = "open" THEN Append(top, k)
                    ELSE IF t[k].k = "mono" THEN top
                    ELSE IF top = <<>> \/ t[top[Len(top)]].name # t[k].name THEN <<-1>>
                    ELSE Cut(top, Len(top) - 1)),
    << <<>> >>, [k \in 1..Len(t) |-> k])
XmlDoc(b) ==
    LET s == LeftTrim(b, Spaces)
        h == Until(s, 62)
        r == TagsOf(Rest(s, Len(h) + 1), <<>>)
        sk == Stacks(r.t)
    IN  IF ~Begins(s, <<60, 63>>) \/ Len(h) = Len(s) THEN No
        ELSE IF ~r.ok THEN No
        ELSE IF r.t = <<>> \/ sk[Len(sk)] # <<>> THEN No
        ELSE [ok |-> TRUE, t |-> r.t, sk |-> sk]
At(d, j) == IF j <= Len(d.t) /\ d.t[j].k # "shut" THEN j ELSE 0
\* the closing tag of the open tag k
Mate(d, k) == Min({j \in k + 1..Len(d.t) : d.sk[j + 1] = d.sk[k]})
After(d, k) == At(d, IF d.t[k].k = "mono" THEN k + 1 ELSE Mate(d, k) + 1)
\* how many open tags are nested at k, counting itself
Nest(d, k) == IF d.t[k].k = "mono" THEN 0 ELSE Max({Len(d.sk[j + 1]) : j \in k..Mate(d, k)}) - Len(d.sk[k])
Deep(x, k) == Len(x.st) + Nest(x.d, k) > 4
RECURSIVE DeepFrom(_, _)
DeepFrom(x, k) == IF k = 0 THEN FALSE ELSE Deep(x, k) \/ DeepFrom(x, After(x.d, k))
DoXml(x, p) ==
    IF p.op = "open"
    THEN LET d == XmlDoc(p.a[1].b) IN
         IF ~d.ok THEN Res(x, NJ) ELSE Res([d |-> d, cur |-> 1, st |-> <<>>], <<N(1)>>)
    ELSE LET k == x.cur IN
    CASE p.op = "name" -> Res(x, <<IF k = 0 THEN Null ELSE B(x.d.t[k].name)>>)
      [] p.op = "attr" -> Res(x, LET v == IF k = 0 THEN <<>> ELSE Lookup(x.d.t[k].a, p.a[1].b) IN <<IF v = <<>> THEN Null ELSE B(v[1])>>)
      [] p.op = "enter" -> IF k = 0 \/ (k # 0 /\ x.d.t[k].k = "mono") THEN Res(x, <<N(0)>>)
                           ELSE IF Len(x.st) = 4 THEN Res(x, <<Panic>>)
                           ELSE Res([x EXCEPT !.cur = At(x.d, k + 1), !.st = Append(@, k)], <<N(1)>>)
      [] p.op = "next" -> IF k = 0 THEN Res(x, <<N(1)>>)
                          ELSE IF Deep(x, k) THEN Res(x, <<Panic>>)
                          ELSE Res([x EXCEPT !.cur = After(x.d, k)], <<N(1)>>)
      [] p.op = "leave" -> IF DeepFrom(x, k) THEN Res(x, <<Panic>>)
                           ELSE IF x.st = <<>> THEN Res([x EXCEPT !.cur = 0], <<N(1)>>)
                           ELSE LET u == x.st[Len(x.st)] IN
                                Res([x EXCEPT !.cur = At(x.d, Mate(x.d, u) + 1), !.st = Cut(@, Len(@) - 1)], <<N(1)>>)

-----------------------------------------------------------------------------
(* Lines without their ends.                                                *)
RECURSIVE Lines(_)
Lines(s) == IF s = <<>> THEN <<>> ELSE LET l == Until(s, NL) IN <<l>> \o Lines(Rest(s, Len(l) + 1))
Blank(l) == \A k \in 1..Len(l) : Space(l[k])
Arrow == <<45, 45, 62>>

(* SRT *)
NoCr(s) == SelectSeq(s, LAMBDA c : c # CR)
NumOf(l) == LET d == Run(l, Digits) IN IF Blank(Rest(l, Len(d))) /\ Len(d) < 9 THEN Val(d) ELSE 0
\* hh:mm:ss,ms at the beginning of s: [ok, ms, rest]
Clock(s) ==
    LET h == Run(s, Digits)
        s1 == Rest(s, Len(h))
        m == Run(Rest(s1, 1), Digits)
        s2 == Rest(s1, 1 + Len(m))
        c == Run(Rest(s2, 1), Digits)
        s3 == Rest(s2, 1 + Len(c))
        u == Run(Rest(s3, 1), Digits)
        s4 == Rest(s3, 1 + Len(u))
    IN  IF Len(h) \notin 1..2 \/ Len(m) \notin 1..2 \/ Len(c) \notin 1..2 \/ Len(u) \notin 1..3
           \/ ~Begins(s1, <<58>>) \/ ~Begins(s2, <<58>>) \/ ~Begins(s3, <<44>>) THEN No
        ELSE [ok |-> TRUE, ms |-> ((Val(h) * 60 + Val(m)) * 60 + Val(c)) * 1000 + Val(u), rest |-> s4]
Starts(ls, k) == k < Len(ls) /\ NumOf(ls[k]) # 0 /\ Find(ls[k + 1], Arrow) >= 0
\* the last line of the text that begins at line k
RECURSIVE TextEnd(_, _)
TextEnd(ls, k) == IF k > Len(ls) \/ Starts(ls, k) THEN k - 1 ELSE TextEnd(ls, k + 1)
RECURSIVE FirstFull(_, _)
FirstFull(ls, k) == IF k > Len(ls) THEN 0 ELSE IF Blank(ls[k]) THEN FirstFull(ls, k + 1) ELSE k
DoSrt(s, p) ==
    IF p.op = "open" THEN LET b == NoCr(p.a[1].b) IN Res([ls |-> Lines(b), at |-> 1, nl |-> b # <<>> /\ b[Len(b)] = NL], <<N(1)>>)
    ELSE LET k == FirstFull(s.ls, s.at) IN
         IF k = 0 THEN Res([s EXCEPT !.at = Len(s.ls) + 1], <<N(0)>>)
         ELSE IF k = Len(s.ls) THEN Res(s, <<Panic>>)
         ELSE LET rg == Trim(s.ls[k + 1])
                  a == Clock(rg)
                  r1 == LeftTrim(a.rest, Spaces)
                  b == Clock(LeftTrim(Rest(r1, 3), Spaces))
                  e == TextEnd(s.ls, k + 2)
                  raw == Flat([j \in 1..(e - k - 1) |-> s.ls[k + 1 + j] \o <<NL>>])
              IN  IF Find(rg, Arrow) < 0 THEN Res(s, <<Panic>>)
                  ELSE IF Len(s.ls[k + 1]) > 198 THEN Res(s, NJ)
                  ELSE IF \E j \in k..e : Len(s.ls[j]) > 4094 THEN Res(s, NJ)
                  ELSE IF Len(raw) > 999 THEN Res(s, IF e = Len(s.ls) /\ ~s.nl THEN NJ ELSE <<Panic>>)
                  ELSE IF ~a.ok THEN Res(s, NJ)
                  ELSE IF ~Begins(r1, Arrow) \/ Len(r1) = Len(a.rest) THEN Res(s, NJ)
                  ELSE IF ~b.ok THEN Res(s, NJ)
                  ELSE IF b.rest # <<>> /\ ~Space(b.rest[1]) THEN Res(s, NJ)
                  ELSE Res([s EXCEPT !.at = e + 1], <<N(1), N(NumOf(s.ls[k])), B(rg), B(Trim(raw)), N(a.ms), N(b.ms)>>)

(* WebVTT *)
Stamp(s) == /\ Len(s) >= 12
            /\ \A k \in {1, 2, 4, 5, 7, 8, 10, 11, 12} : Digit(s[k])
            /\ s[3] = 58 /\ s[6] = 58 /\ s[9] = 46
CueLine(l) == LET r == Rest(l, 12) IN
              IF Stamp(l) /\ Begins(r, <<32>> \o Arrow \o <<32>>) /\ Stamp(Rest(r, 5))
              THEN Cut(l, 29 + (IF Len(l) > 29 /\ l[30] = 32 THEN 1 ELSE 0)) ELSE <<>>
\* the line without what is between angle brackets
Untag(l) == FoldLeft(LAMBDA a, c : IF a.tag THEN [a EXCEPT !.tag = c # 62]
                                   ELSE IF c = 60 THEN [a EXCEPT !.tag = TRUE] ELSE [a EXCEPT !.o = Append(@, c)],
                     [tag |-> FALSE, o |-> <<>>], l).o
Join(a, l) == IF a = <<>> THEN Untag(l) ELSE a \o <<NL>> \o Untag(l)
RECURSIVE FirstLine(_, _)
FirstLine(ls, k) == IF k > Len(ls) THEN 0 ELSE IF ls[k] = <<>> THEN FirstLine(ls, k + 1) ELSE k
RECURSIVE LastLine(_, _)
LastLine(ls, k) == IF k > Len(ls) THEN k - 1 ELSE IF ls[k] = <<>> THEN k - 1 ELSE LastLine(ls, k + 1)
WEBVTT == <<87, 69, 66, 86, 84, 84>>
DoVtt(s, p) ==
    CASE p.op = "open" ->
            LET ls0 == Lines(p.a[1].b)
                ls == [k \in 1..Len(ls0) |-> RightTrim(ls0[k], {CR, NL})]
                e == LastLine(ls, 2)
                good == ls # <<>> /\ ls[1] = WEBVTT /\ e < Len(ls) /\ \A k \in 2..e : Find(ls[k], <<58, 32>>) >= 0
            IN  IF \E k \in 1..Len(ls) : Len(ls0[k]) > 4090 THEN Res(s, NJ)
                ELSE Res([ls |-> ls, at |-> e + 2, err |-> ~good], <<Bool(~good)>>)
      [] p.op = "err" -> Res(s, <<Bool(s.err)>>)
      [] OTHER ->
            LET k == IF s.err THEN 0 ELSE FirstLine(s.ls, s.at)
                rg == CueLine(s.ls[k])
                e == LastLine(s.ls, k + 1)
            IN  IF s.err THEN Res(s, <<N(0)>>)
                ELSE IF k = 0 THEN Res([s EXCEPT !.at = Len(s.ls) + 1], <<N(0)>>)
                ELSE IF rg = <<>> THEN Res([s EXCEPT !.err = TRUE], <<N(0)>>)
                ELSE Res([s EXCEPT !.at = e + 2], <<N(1), B(rg), B(Trim(FoldLeft(Join, <<>>, SubSeq(s.ls, k + 1, e))))>>)

(* Cue sheets: one command a line. *)
Word(l) == Until(l, 32)
Rem == <<82, 69, 77>>
Performer == <<80, 69, 82, 70, 79, 82, 77, 69, 82>>
Title == <<84, 73, 84, 76, 69>>
Track == <<84, 82, 65, 67, 75>>
Index == <<73, 78, 68, 69, 88>>
File == <<70, 73, 76, 69>>
Quoted(s) == s # <<>> /\ s[1] = 34 /\ Len(Until(Tail(s), 34)) < Len(s) - 1
CueStep(a, l0) ==
    LET l == LeftTrim(l0, {32, 9})
        w == Word(l)
        r == LeftTrim(Rest(l, Len(w)), {32, 9})
        q == Until(Tail(r), 34)
        rq == LeftTrim(Rest(r, Len(q) + 2), {32, 9})
        d1 == Run(r, Digits)
        i1 == LeftTrim(Rest(r, Len(d1)), {32})
        d2 == Run(i1, Digits)
        i2 == Rest(i1, Len(d2))
        d3 == Run(Rest(i2, 1), Digits)
        i3 == Rest(i2, 1 + Len(d3))
        d4 == Run(Rest(i3, 1), Digits)
        i4 == Rest(i3, 1 + Len(d4))
        n == Len(a.t)
    IN  IF a.r # "" THEN a
        ELSE IF ~In(32, l) THEN [a EXCEPT !.r = "nj"]
        ELSE IF w = Rem THEN (IF Len(r) > 990 THEN [a EXCEPT !.r = "nj"] ELSE a)
        ELSE IF w \in {Performer, Title}
        THEN IF r = <<>> \/ r[1] # 34 THEN [a EXCEPT !.r = "panic"]
             ELSE IF ~Quoted(r) \/ Rest(r, Len(q) + 2) # <<>> THEN [a EXCEPT !.r = "nj"]
             ELSE IF Len(q) > 99 THEN [a EXCEPT !.r = "panic"]
             ELSE IF w = Title /\ n > 0 THEN [a EXCEPT !.t[n].title = q] ELSE a
        ELSE IF w = File
        THEN IF ~Quoted(r) \/ Len(rq) > 18 THEN [a EXCEPT !.r = "nj"] ELSE IF Len(q) > 99 THEN [a EXCEPT !.r = "panic"] ELSE a
        ELSE IF w = Track
        THEN IF d1 = <<>> THEN [a EXCEPT !.r = "panic"]
             ELSE IF Len(d1) > 8 \/ Len(LeftTrim(Rest(r, Len(d1)), {32, 9})) > 18 THEN [a EXCEPT !.r = "nj"]
             ELSE IF n = 100 THEN [a EXCEPT !.r = "err"]
             ELSE [a EXCEPT !.t = Append(@, [title |-> <<>>, s |-> 0, us |-> 0])]
        ELSE IF w = Index
        THEN IF d1 = <<>> THEN [a EXCEPT !.r = "panic"]
             ELSE IF Len(d1) > 3 \/ Len(d2) \notin 1..3 \/ Len(d3) \notin 1..2 \/ Len(d4) \notin 1..2 \/ i4 # <<>> \/ ~Begins(i2, <<58>>) \/ ~Begins(i3, <<58>>) THEN [a EXCEPT !.r = "nj"]
             ELSE IF Val(d1) > 1 THEN [a EXCEPT !.r = "panic"]
             ELSE IF n = 0 THEN [a EXCEPT !.r = "err"]
             ELSE LET f == Val(d4) IN
                  [a EXCEPT !.t[n].s = Val(d2) * 60 + Val(d3) + (f \div 75), !.t[n].us = ((f % 75) * 1000000) \div 75]
        ELSE [a EXCEPT !.r = "panic"]
DoCue(p) ==
    LET ls0 == Lines(p.a[1].b)
        ls == [k \in 1..Len(ls0) |-> RightTrim(ls0[k], {CR})]
        r == FoldLeft(CueStep, [r |-> "", t |-> <<>>], ls)
    IN  CASE r.r = "nj" -> NJ
          [] r.r = "panic" -> <<Panic>>
          [] r.r = "err" -> <<N(0)>>
          [] OTHER -> <<N(1), N(Len(r.t))>> \o Flat([k \in 1..Len(r.t) |-> <<B(r.t[k].title), N(r.t[k].s), N(r.t[k].us)>>])

Start(kind) == [x |-> 0]
Do1(kind, s, p) ==
    CASE kind = "http" -> DoHttp(s, p)
      [] kind = "cgi" -> Res(s, DoCgi(p))
      [] kind = "xml" -> DoXml(s, p)
      [] kind = "srt" -> DoSrt(s, p)
      [] kind = "vtt" -> DoVtt(s, p)
      [] OTHER -> Res(s, DoCue(p))
\* Nothing more is said after a panic or an input that is not judged.
Dead == [x |-> 1]
Do(kind, s, p) ==
    IF s = Dead THEN Res(Dead, NJ)
    ELSE LET r == Do1(kind, s, p) IN IF r.o = NJ \/ r.o = <<Panic>> THEN Res(Dead, r.o) ELSE r
=============================================================================