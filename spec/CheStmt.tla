------------------------------ MODULE CheStmt ------------------------------
(* Statements of the language as a small-step abstract machine.

   A statement is a record with field "k":
     out e | set x e | decl x e | inc x | if c A B hasElse | while c B
     for x init c step B (declares x) | forx x init c step B (assigns x)
     sw e cases def hasDef | sws e cases def hasDef | brk | cont | ret e
   Bodies are records [ss |-> <<statements>>, br |-> BOOLEAN] where br=FALSE
   asks for a body without braces.  Integer expressions: num n | var x |
   add x n | mod x n | call n (emits an event and returns n) | ticks (returns
   and increments a hidden counter, emitting it).  Conditions: cmp l op n |
   tru | fls | var x | not x | and l r | or l r.  String expressions: str s |
   strf s (a call returning s, emitting an event).                          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

\* remainder truncating towards zero (the sign of the dividend), n > 0
TruncRem(x, n) == IF x >= 0 THEN x % n ELSE -((-x) % n)

CONSTANT MaxSteps

Names == {"a", "b", "c", "x", "y"}
KConst == [KA |-> 3, KB |-> 4]           \* enum constants usable in cases

----------------------------------------------------------------------------
\* Frames: [t |-> "seq", ss, loc] ; [t |-> "loop", c, step, body, loc] ; [t |-> "sw"]
Seqf(ss) == [t |-> "seq", ss |-> ss, loc |-> <<>>]
\* loc is a sequence of [n, v] pairs (latest last)
RECURSIVE LookIn(_, _, _)
LookIn(loc, x, i) == IF i = 0 THEN [f |-> FALSE, v |-> 0] ELSE IF loc[i].n = x THEN [f |-> TRUE, v |-> loc[i].v] ELSE LookIn(loc, x, i - 1)
HasLoc(fr) == fr.t \in {"seq", "loop"}
RECURSIVE Look(_, _, _, _)
Look(st, env, x, i) ==
  IF i = 0 THEN env[x]
  ELSE IF HasLoc(st[i]) /\ LookIn(st[i].loc, x, Len(st[i].loc)).f THEN LookIn(st[i].loc, x, Len(st[i].loc)).v
  ELSE Look(st, env, x, i - 1)
Get(m, x) == Look(m.k, m.env, x, Len(m.k))
RECURSIVE Put(_, _, _, _)
\* returns the machine with x updated at its innermost declaration
PutLoc(loc, x, v) == [j \in 1..Len(loc) |-> IF loc[j].n = x THEN [n |-> x, v |-> v] ELSE loc[j]]
Put(m, x, v, i) ==
  IF i = 0 THEN [m EXCEPT !.env[x] = v]
  ELSE IF HasLoc(m.k[i]) /\ LookIn(m.k[i].loc, x, Len(m.k[i].loc)).f THEN [m EXCEPT !.k[i].loc = PutLoc(m.k[i].loc, x, v)]
  ELSE Put(m, x, v, i - 1)
Set(m, x, v) == Put(m, x, v, Len(m.k))
Emit(m, s, v) == [m EXCEPT !.out = Append(m.out, <<s, v>>)]

\* integer expressions: [m, v]
EvI(e, m) ==
  CASE e.k = "num" -> [m |-> m, v |-> e.n]
    [] e.k = "var" -> [m |-> m, v |-> Get(m, e.x)]
    [] e.k = "add" -> [m |-> m, v |-> Get(m, e.x) + e.n]
    [] e.k = "mod" -> [m |-> m, v |-> TruncRem(Get(m, e.x), e.n)]
    [] e.k = "call" -> [m |-> Emit(m, "f", e.n), v |-> e.n]
    [] e.k = "ticks" -> [m |-> Emit([m EXCEPT !.tk = m.tk + 1], "t", m.tk + 1), v |-> m.tk + 1]
CmpV(x, op, y) == CASE op = "<" -> x < y [] op = ">" -> x > y [] op = "==" -> x = y [] op = "!=" -> x # y
                    [] op = "<=" -> x <= y [] op = ">=" -> x >= y
RECURSIVE EvC(_, _)
EvC(c, m) ==
  CASE c.k = "tru" -> [m |-> m, v |-> TRUE]
    [] c.k = "fls" -> [m |-> m, v |-> FALSE]
    [] c.k = "cmp" -> LET r == EvI(c.l, m) IN [m |-> r.m, v |-> CmpV(r.v, c.op, c.n)]
    [] c.k = "var" -> [m |-> m, v |-> Get(m, c.x) # 0]
    [] c.k = "not" -> [m |-> m, v |-> Get(m, c.x) = 0]
    [] c.k = "and" -> LET r == EvC(c.l, m) IN IF r.v THEN EvC(c.r, r.m) ELSE [m |-> r.m, v |-> FALSE]
    [] c.k = "or" -> LET r == EvC(c.l, m) IN IF r.v THEN [m |-> r.m, v |-> TRUE] ELSE EvC(c.r, r.m)
EvS(e, m) == IF e.k = "str" THEN [m |-> m, v |-> e.s] ELSE [m |-> Emit(m, "s", Len(e.s)), v |-> e.s]

CaseVal(v) == IF v.k = "num" THEN v.n ELSE IF v.k = "chr" THEN v.n ELSE KConst[v.x]
RECURSIVE FindCase(_, _, _)
FindCase(cs, v, i) == IF i > Len(cs) THEN 0
                      ELSE IF \E j \in 1..Len(cs[i].vals) : CaseVal(cs[i].vals[j]) = v THEN i ELSE FindCase(cs, v, i + 1)
RECURSIVE FindCaseS(_, _, _)
FindCaseS(cs, v, i) == IF i > Len(cs) THEN 0
                      ELSE IF \E j \in 1..Len(cs[i].vals) : cs[i].vals[j] = v THEN i ELSE FindCaseS(cs, v, i + 1)

Pop(k) == SubSeq(k, 1, Len(k) - 1)
RECURSIVE PopTo(_, _)
\* drops frames above the innermost frame whose type is in ts (that frame stays on top)
PopTo(k, ts) == IF k = <<>> THEN <<>> ELSE IF k[Len(k)].t \in ts THEN k ELSE PopTo(Pop(k), ts)
Push(m, fr) == [m EXCEPT !.k = Append(m.k, fr)]
\* consumes the head statement of the top frame
Adv(m) == [m EXCEPT !.k[Len(m.k)].ss = Tail(m.k[Len(m.k)].ss)]

DoStep(m, s) == IF s.k = "none" THEN m ELSE IF s.k = "inc" THEN Set(m, s.x, Get(m, s.x) + 1)
                ELSE IF s.k = "dec" THEN Set(m, s.x, Get(m, s.x) - 1) ELSE LET r == EvI(s.e, m) IN Set(r.m, s.x, r.v)
\* evaluates the loop condition on top of the loop frame
Loop(m) == LET fr == m.k[Len(m.k)]
               r == IF fr.c.k = "none" THEN [m |-> m, v |-> TRUE] ELSE EvC(fr.c, m)
           IN IF r.v THEN Push(r.m, Seqf(fr.body.ss)) ELSE [r.m EXCEPT !.k = Pop(r.m.k)]
LoopFrame(c, step, body) == [t |-> "loop", c |-> c, step |-> step, body |-> body, loc |-> <<>>]
None == [k |-> "none"]

Exec(m, s) ==   \* m already advanced past s
  CASE s.k = "out" -> LET r == EvI(s.e, m) IN Emit(r.m, "o", r.v)
    [] s.k = "set" -> LET r == EvI(s.e, m) IN Set(r.m, s.x, r.v)
    [] s.k \in {"inc", "dec"} -> DoStep(m, s)
    [] s.k = "decl" -> LET r == EvI(s.e, m) IN
         [r.m EXCEPT !.k[Len(r.m.k)].loc = Append(r.m.k[Len(r.m.k)].loc, [n |-> s.x, v |-> r.v])]
    [] s.k = "if" -> LET r == EvC(s.c, m) IN
         IF r.v THEN Push(r.m, Seqf(s.A.ss)) ELSE IF s.hasElse THEN Push(r.m, Seqf(s.B.ss)) ELSE r.m
    [] s.k = "while" -> Loop(Push(m, LoopFrame(s.c, None, s.B)))
    [] s.k = "for" -> LET r == EvI(s.init, m)
                          m2 == Push(r.m, [LoopFrame(s.c, s.step, s.B) EXCEPT !.loc = <<[n |-> s.x, v |-> r.v]>>])
                      IN Loop(m2)
    [] s.k = "forx" -> LET r == EvI(s.init, m) IN Loop(Push(Set(r.m, s.x, r.v), LoopFrame(s.c, s.step, s.B)))
    [] s.k = "forn" -> Loop(Push(m, LoopFrame(s.c, s.step, s.B)))
    [] s.k = "sw" -> LET r == EvI(s.e, m) i == FindCase(s.cases, r.v, 1) IN
         IF i > 0 THEN Push(Push(r.m, [t |-> "sw"]), Seqf(s.cases[i].B.ss))
         ELSE IF s.hasDef THEN Push(Push(r.m, [t |-> "sw"]), Seqf(s.def.ss)) ELSE r.m
    [] s.k = "sws" -> LET r == EvS(s.e, m) i == FindCaseS(s.cases, r.v, 1) IN
         IF i > 0 THEN Push(r.m, Seqf(s.cases[i].B.ss))
         ELSE IF s.hasDef THEN Push(r.m, Seqf(s.def.ss)) ELSE r.m
    [] s.k = "brk" -> [m EXCEPT !.k = Pop(PopTo(m.k, {"loop", "sw"}))]
    [] s.k = "cont" -> LET k2 == PopTo(m.k, {"loop"}) m2 == [m EXCEPT !.k = k2] IN Loop(DoStep(m2, k2[Len(k2)].step))
    [] s.k = "ret" -> LET r == EvI(s.e, m) IN [r.m EXCEPT !.k = <<>>, !.ret = r.v, !.done = TRUE]

Step(m) ==
  LET fr == m.k[Len(m.k)] IN
  IF fr.t = "sw" THEN [m EXCEPT !.k = Pop(m.k)]
  ELSE IF fr.t = "loop" THEN Loop(DoStep(m, fr.step))
  ELSE IF fr.ss = <<>> THEN [m EXCEPT !.k = Pop(m.k)]
  ELSE Exec(Adv(m), Head(fr.ss))

Machine(prog, arg) == [k |-> <<Seqf(prog)>>, env |-> [n \in Names |-> CASE n = "a" -> arg [] n = "b" -> 2 [] OTHER -> 0],
                       out |-> <<>>, tk |-> 0, ret |-> 0, done |-> FALSE]
----------------------------------------------------------------------------
(* Concrete syntax.                                                          *)
Op(c) == <<c>>
TkI(e) == CASE e.k = "num" -> <<ToString(e.n)>> [] e.k = "var" -> <<e.x>> [] e.k = "add" -> <<e.x, "+", ToString(e.n)>>
            [] e.k = "mod" -> <<e.x, "%", ToString(e.n)>> [] e.k = "call" -> <<"f", "(", ToString(e.n), ")">>
            [] e.k = "ticks" -> <<"ticks", "(", ")">>
RECURSIVE TkC(_)
TkC(c) == CASE c.k = "tru" -> <<"true">> [] c.k = "fls" -> <<"false">> [] c.k = "cmp" -> TkI(c.l) \o <<c.op, ToString(c.n)>>
            [] c.k = "var" -> <<c.x>> [] c.k = "not" -> <<"!", c.x>> [] c.k = "none" -> <<>>
            [] c.k = "and" -> (IF c.l.k = "or" THEN <<"(">> \o TkC(c.l) \o <<")">> ELSE TkC(c.l)) \o <<"&&">> \o (IF c.r.k \in {"or", "and"} THEN <<"(">> \o TkC(c.r) \o <<")">> ELSE TkC(c.r))
            [] c.k = "or" -> TkC(c.l) \o <<"||">> \o (IF c.r.k = "or" THEN <<"(">> \o TkC(c.r) \o <<")">> ELSE TkC(c.r))
Str(s) == <<"\"" \o s \o "\"">>
TkS(e) == IF e.k = "str" THEN <<"ident", "(">> \o Str(e.s) \o <<")">> ELSE <<"sf", "(">> \o Str(e.s) \o <<")">>
TkCase(v) == IF v.k = "num" THEN ToString(v.n) ELSE IF v.k = "chr" THEN "'" \o v.s \o "'" ELSE v.x
RECURSIVE Join(_, _)
Join(ts, i) == IF i > Len(ts) THEN <<>> ELSE IF i = 1 THEN <<ts[1]>> \o Join(ts, 2) ELSE <<",", ts[i]>> \o Join(ts, i + 1)
TkStep(s) == CASE s.k = "none" -> <<>> [] s.k = "inc" -> <<s.x, "++">> [] s.k = "dec" -> <<s.x, "--">> [] s.k = "set" -> <<s.x, "=">> \o TkI(s.e)
RECURSIVE TkSs(_), TkSt(_), TkCases(_, _, _), EndsInIf(_)
Braced(b) == <<"{">> \o TkSs(b.ss) \o <<"}">>
\* a body may lose its braces when it is one statement that is not a declaration
NoBr(b, elseFollows) == ~b.br /\ Len(b.ss) = 1 /\ b.ss[1].k # "decl" /\ (elseFollows => ~EndsInIf(b.ss[1]))
EndsInIf(s) == s.k \in {"if", "while", "for", "forx", "forn"}
Body(b, ef) == IF NoBr(b, ef) THEN TkSt(b.ss[1]) ELSE Braced(b)
TkSs(ss) == IF ss = <<>> THEN <<>> ELSE TkSt(Head(ss)) \o TkSs(Tail(ss))
TkCases(cs, i, isStr) == IF i > Len(cs) THEN <<>> ELSE
   <<"case">> \o Join([j \in 1..Len(cs[i].vals) |-> IF isStr THEN Str(cs[i].vals[j])[1] ELSE TkCase(cs[i].vals[j])], 1)
   \o <<":">> \o Braced(cs[i].B) \o TkCases(cs, i + 1, isStr)
TkSt(s) ==
  CASE s.k = "out" -> <<"out", "(">> \o TkI(s.e) \o <<")", ";">>
    [] s.k = "set" -> <<s.x, "=">> \o TkI(s.e) \o <<";">>
    [] s.k \in {"inc", "dec"} -> TkStep(s) \o <<";">>
    [] s.k = "decl" -> <<"int", s.x, "=">> \o TkI(s.e) \o <<";">>
    [] s.k = "if" -> <<"if", "(">> \o TkC(s.c) \o <<")">> \o Body(s.A, s.hasElse) \o (IF s.hasElse THEN <<"else">> \o Body(s.B, FALSE) ELSE <<>>)
    [] s.k = "while" -> <<"while", "(">> \o TkC(s.c) \o <<")">> \o Body(s.B, FALSE)
    [] s.k = "for" -> <<"for", "(", "int", s.x, "=">> \o TkI(s.init) \o <<";">> \o TkC(s.c) \o <<";">> \o TkStep(s.step) \o <<")">> \o Body(s.B, FALSE)
    [] s.k = "forx" -> <<"for", "(", s.x, "=">> \o TkI(s.init) \o <<";">> \o TkC(s.c) \o <<";">> \o TkStep(s.step) \o <<")">> \o Body(s.B, FALSE)
    [] s.k = "forn" -> <<"for", "(", ";">> \o TkC(s.c) \o <<";">> \o TkStep(s.step) \o <<")">> \o Body(s.B, FALSE)
    [] s.k = "sw" -> <<"switch", "(">> \o TkI(s.e) \o <<")", "{">> \o TkCases(s.cases, 1, FALSE)
                     \o (IF s.hasDef THEN <<"default", ":">> \o Braced(s.def) ELSE <<>>) \o <<"}">>
    [] s.k = "sws" -> <<"switch", "str", "(">> \o TkS(s.e) \o <<")", "{">> \o TkCases(s.cases, 1, TRUE)
                     \o (IF s.hasDef THEN <<"default", ":">> \o Braced(s.def) ELSE <<>>) \o <<"}">>
    [] s.k = "brk" -> <<"break", ";">>
    [] s.k = "cont" -> <<"continue", ";">>
    [] s.k = "ret" -> <<"return">> \o TkI(s.e) \o <<";">>
----------------------------------------------------------------------------
(* Well-formedness: break/continue only where the machine defines them.
   break inside a string switch is left out of the modelled language.        *)
RECURSIVE WfSs(_, _, _), WfSt(_, _, _)
WfSs(ss, inLoop, brkOK) == \A i \in 1..Len(ss) : WfSt(ss[i], inLoop, brkOK)
WfSt(s, inLoop, brkOK) ==
  CASE s.k = "brk" -> brkOK
    [] s.k = "cont" -> inLoop
    [] s.k = "if" -> WfSs(s.A.ss, inLoop, brkOK) /\ (s.hasElse => WfSs(s.B.ss, inLoop, brkOK))
    [] s.k \in {"while", "for", "forx", "forn"} -> WfSs(s.B.ss, TRUE, TRUE)
    [] s.k = "sw" -> (\A i \in 1..Len(s.cases) : WfSs(s.cases[i].B.ss, inLoop, TRUE)) /\ (s.hasDef => WfSs(s.def.ss, inLoop, TRUE))
                     /\ (s.cases # <<>> \/ s.hasDef)
    [] s.k = "sws" -> (\A i \in 1..Len(s.cases) : WfSs(s.cases[i].B.ss, inLoop, FALSE)) /\ (s.hasDef => WfSs(s.def.ss, inLoop, FALSE))
    [] OTHER -> TRUE
=============================================================================
