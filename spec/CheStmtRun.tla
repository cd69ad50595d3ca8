---------------------------- MODULE CheStmtRun ----------------------------
(* Runs the statement machine.  Programs come either from cases.ndjson
   (Src = "file") or from the enumerated nesting family (Src = "enum").      *)
EXTENDS CheStmt, Json, SequencesExt
CONSTANTS Src, Wide
VARIABLES pid, arg, m, n

Num(k) == [k |-> "num", n |-> k]
Var(x) == [k |-> "var", x |-> x]
Out(k) == [k |-> "out", e |-> Num(k)]
OutV(x) == [k |-> "out", e |-> Var(x)]
Inc(x) == [k |-> "inc", x |-> x]
Bd(ss) == [ss |-> ss, br |-> FALSE]
BdB(ss) == [ss |-> ss, br |-> TRUE]
Lt(x, k) == [k |-> "cmp", l |-> Var(x), op |-> "<", n |-> k]
Eq(x, k) == [k |-> "cmp", l |-> Var(x), op |-> "==", n |-> k]
If(c, A) == [k |-> "if", c |-> c, A |-> Bd(A), B |-> Bd(<<>>), hasElse |-> FALSE]
IfE(c, A, B) == [k |-> "if", c |-> c, A |-> Bd(A), B |-> Bd(B), hasElse |-> TRUE]
Wh(c, B) == [k |-> "while", c |-> c, B |-> Bd(B)]
For(x, k, B) == [k |-> "for", x |-> x, init |-> Num(0), c |-> Lt(x, k), step |-> Inc(x), B |-> Bd(B)]
ForX(x, k, B) == [k |-> "forx", x |-> x, init |-> Num(0), c |-> Lt(x, k), step |-> Inc(x), B |-> Bd(B)]
ForN(B) == [k |-> "forn", c |-> None, step |-> Inc("c"), B |-> Bd(B)]
Case(vs, B) == [vals |-> vs, B |-> Bd(B)]
Sw(e, cs, d) == [k |-> "sw", e |-> e, cases |-> cs, def |-> Bd(d), hasDef |-> TRUE]
SwN(e, cs) == [k |-> "sw", e |-> e, cases |-> cs, def |-> Bd(<<>>), hasDef |-> FALSE]
Sws(e, cs, d) == [k |-> "sws", e |-> e, cases |-> cs, def |-> Bd(d), hasDef |-> TRUE]
SwsN(e, cs) == [k |-> "sws", e |-> e, cases |-> cs, def |-> Bd(<<>>), hasDef |-> FALSE]
Brk == [k |-> "brk"]
Cont == [k |-> "cont"]
Ret(k) == [k |-> "ret", e |-> Num(k)]
Leaves == { <<Out(1)>>, <<Brk>>, <<Cont>>, <<Ret(9)>>, <<>>, <<Out(1), Brk>>, <<Out(1), Cont>>, <<[k |-> "decl", x |-> "x", e |-> Num(5)], OutV("x")>>, <<Inc("b"), OutV("b")>> }
Wraps(L) == { <<If(Eq("a", 1), L), Out(20)>>, <<IfE(Lt("a", 2), L, <<Out(21)>>), Out(22)>>, <<IfE(Lt("a", 2), <<Out(23)>>, L), Out(24)>>,
              <<IfE(Eq("a", 0), <<Out(25)>>, <<IfE(Eq("a", 1), L, <<Out(26)>>)>>), Out(27)>>,
              <<Wh(Lt("b", 5), <<Inc("b")>> \o L), Out(28)>>, <<For("x", 3, L), Out(29)>>, <<For("y", 3, <<OutV("y")>> \o L \o <<Out(30)>>), Out(31)>>,
              <<ForX("b", 3, <<OutV("b")>> \o L), OutV("b")>>,
              <<ForN(<<If([k |-> "cmp", l |-> Var("c"), op |-> ">=", n |-> 3], <<Brk>>), OutV("c")>> \o L), OutV("c")>>,
              <<Sw(Var("a"), <<Case(<<Num(0)>>, L), Case(<<Num(1), [k |-> "id", x |-> "KA"]>>, <<Out(32)>>)>>, <<Out(33)>>), Out(34)>>,
              <<Sw(Var("a"), <<Case(<<Num(0)>>, <<Out(35)>>), Case(<<Num(2), Num(1)>>, L)>>, <<Out(36)>>), Out(37)>>,
              <<Sw(Var("a"), <<Case(<<Num(0)>>, <<Out(38)>>)>>, L), Out(39)>>,
              <<SwN(Var("a"), <<Case(<<Num(1)>>, L), Case(<<Num(2)>>, <<Out(40)>>)>>), Out(41)>>,
              <<Sws([k |-> "strf", s |-> "ab"], <<Case(<<"a">>, <<Out(42)>>), Case(<<"b", "ab", "c">>, L)>>, <<Out(43)>>), Out(44)>>,
              <<Sws([k |-> "strf", s |-> "zz"], <<Case(<<"a">>, <<Out(45)>>), Case(<<"b">>, <<Out(46)>>)>>, L), Out(47)>>,
              <<Sws([k |-> "str", s |-> ""], <<Case(<<"">>, L), Case(<<"b">>, <<Out(48)>>)>>, <<Out(49)>>), Out(50)>>,
              <<SwsN([k |-> "strf", s |-> "q"], <<Case(<<"a">>, <<Out(51)>>), Case(<<"q">>, L)>>), Out(52)>>,
              <<Wh([k |-> "and", l |-> Lt("b", 4), r |-> [k |-> "cmp", l |-> [k |-> "ticks"], op |-> "<", n |-> 6]], <<Inc("b")>> \o L), Out(53)>> }
RECURSIVE Depth(_)
Depth(d) == IF d = 0 THEN Leaves ELSE UNION { Wraps(L) : L \in Depth(d - 1) }
EnumSet(w) == Depth(1) \cup Depth(2) \cup (IF w THEN { q \in Depth(3) : q[1].k \in {"while", "sw"} } ELSE {})
Enum == IF Src = "enum" THEN SetToSeq({ p \in EnumSet(Wide) : WfSs(p, FALSE, FALSE) }) ELSE <<>>
FileCases == IF Src = "file" THEN ndJsonDeserialize("cases.ndjson") ELSE <<>>
Tail1 == <<[k |-> "ret", e |-> [k |-> "var", x |-> "b"]]>>
Progs == IF Src = "enum" THEN [i \in 1..Len(Enum) |-> Enum[i] \o Tail1] ELSE [i \in 1..Len(FileCases) |-> FileCases[i] \o Tail1]
ProgsC == Progs
Args == 0..2
Init == /\ pid \in 1..Len(ProgsC) /\ (WfSs(ProgsC[pid], FALSE, FALSE) = TRUE) /\ arg \in Args
        /\ m = Machine(ProgsC[pid], arg) /\ n = 0
Next == /\ ~m.done /\ m.k # <<>> /\ n < MaxSteps
        /\ m' = Step(m) /\ n' = n + 1 /\ UNCHANGED <<pid, arg>>
vars == <<pid, arg, m, n>>
Spec == Init /\ [][Next]_vars
----------------------------------------------------------------------------
\* Every program of the modelled language ends by its return statement.
EndsByReturn == (m.k = <<>>) => m.done
\* Output only grows.
OutGrows == [][IsPrefix(m.out, m'.out)]_vars
\* At most one switch alternative runs: markers of two alternatives of one
\* enumerated int switch never both appear without an intervening switch end.
EmitSrc == n = 0 /\ arg = 0 => PrintT("SRC " \o ToJson([id |-> pid, t |-> TkSs(ProgsC[pid])]))
EmitRes == m.done => PrintT("RES " \o ToJson([id |-> pid, arg |-> arg, out |-> m.out, ret |-> m.ret, steps |-> n]))
=============================================================================
