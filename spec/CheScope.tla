----------------------------- MODULE CheScope -----------------------------
(* Names: where they are visible, and the mistakes the compiler must refuse:
   undefined names, unused private names, duplicate definitions, unused
   imports, missing returns.

   Module: [imports |-> <<ns>>, consts |-> <<[n, pub, ln]>>,
            vars |-> <<[n, ln]>>, fns |-> <<fn>>]
   fn: [n, pub, params |-> <<[n, ln]>>, void, body, ln]
   Statements (field k):
     use x ln | decl x ini ln (ini = name or "") | if c A B hasElse ln
     for x cond A ln (cond = the name the condition reads) | while c A ln
     sw x cases def hasDef ln, a case is [lbl (a name or "" for a number), A, ln]
     call ns f ln | ret x ln (x = name or "") | panic ln
     loop A ln (an endless loop without break)                               *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

B0(n, ln, pub) == [n |-> n, ln |-> ln, pub |-> pub, used |-> FALSE]
F(kind, n, ln) == [kind |-> kind, n |-> n, ln |-> ln]
\* state: [sc |-> stack of scopes, each a sequence of bindings; fl |-> set of faults; ns |-> set of used namespaces]
Has(scope, n) == \E i \in DOMAIN scope : scope[i].n = n
Add(st, n, ln, pub) ==
    LET k == Len(st.sc) IN
    IF Has(st.sc[k], n) THEN [st EXCEPT !.fl = @ \cup {F("duplicate", n, ln)}]
    ELSE [st EXCEPT !.sc[k] = Append(@, B0(n, ln, pub))]
Builtin == {"", "NULL", "true", "false"}
Use(st, n, ln) ==
    IF n \in Builtin THEN st
    ELSE LET ks == { k \in DOMAIN st.sc : Has(st.sc[k], n) } IN
         IF ks = {} THEN [st EXCEPT !.fl = @ \cup {F("undefined", n, ln)}]
         ELSE LET k == CHOOSE k \in ks : \A j \in ks : j <= k
                  i == CHOOSE i \in DOMAIN st.sc[k] : st.sc[k][i].n = n
              IN [st EXCEPT !.sc[k][i].used = TRUE]
Push(st) == [st EXCEPT !.sc = Append(@, <<>>)]
Pop(st) == LET k == Len(st.sc) s == st.sc[k] IN
    [st EXCEPT !.sc = SubSeq(@, 1, k - 1),
               !.fl = @ \cup { F("unused", s[i].n, s[i].ln) : i \in { i \in DOMAIN s : ~s[i].used /\ ~s[i].pub } }]
RECURSIVE Stmts(_, _, _)
RECURSIVE Stmt(_, _, _)
RECURSIVE Cases(_, _, _)
Block(imps, st, ss) == Pop(Stmts(imps, Push(st), ss))
Stmts(imps, st, ss) == IF ss = <<>> THEN st ELSE Stmts(imps, Stmt(imps, st, Head(ss)), Tail(ss))
Cases(imps, st, cs) == IF cs = <<>> THEN st ELSE Cases(imps, Block(imps, Use(st, Head(cs).lbl, Head(cs).ln), Head(cs).A), Tail(cs))
Stmt(imps, st, s) ==
    CASE s.k = "use" -> Use(st, s.x, s.ln)
      [] s.k = "decl" -> Add(Use(st, s.ini, s.ln), s.x, s.ln, FALSE)
      [] s.k = "if" -> LET a == Block(imps, Use(st, s.c, s.ln), s.A) IN IF s.hasElse THEN Block(imps, a, s.B) ELSE a
      [] s.k = "while" -> Block(imps, Use(st, s.c, s.ln), s.A)
      [] s.k = "loop" -> Block(imps, st, s.A)
      [] s.k = "for" -> Pop(Block(imps, Use(Add(Push(st), s.x, s.ln, FALSE), s.cond, s.ln), s.A))
      [] s.k = "sw" -> LET a == Cases(imps, Use(st, s.x, s.ln), s.cases) IN IF s.hasDef THEN Block(imps, a, s.def) ELSE a
      [] s.k = "call" -> IF s.ns = "" THEN Use(st, s.f, s.ln)
                         ELSE IF s.ns \in imps THEN [st EXCEPT !.ns = @ \cup {s.ns}]
                         ELSE [st EXCEPT !.fl = @ \cup {F("undefined", s.ns, s.ln)}]
      [] s.k = "ret" -> Use(st, s.x, s.ln)
      [] s.k = "panic" -> st
----------------------------------------------------------------------------
\* Control can reach the end of the block.
RECURSIVE Falls(_)
RECURSIVE FallsS(_)
Falls(ss) == \A i \in DOMAIN ss : FallsS(ss[i])
FallsS(s) == CASE s.k \in {"ret", "panic", "loop"} -> FALSE
               [] s.k = "if" -> Falls(s.A) \/ ~s.hasElse \/ Falls(s.B)
               [] s.k = "sw" -> ~s.hasDef \/ Falls(s.def) \/ \E i \in DOMAIN s.cases : Falls(s.cases[i].A)
               [] OTHER -> TRUE
\* The function visibly ends by returning: its last statement does so on every branch.
RECURSIVE Ends(_)
Ends(ss) == ss # <<>> /\ LET s == ss[Len(ss)] IN
    CASE s.k \in {"ret", "panic", "loop"} -> TRUE
      [] s.k = "if" -> s.hasElse /\ Ends(s.A) /\ Ends(s.B)
      [] s.k = "sw" -> s.hasDef /\ Ends(s.def) /\ \A i \in DOMAIN s.cases : Ends(s.cases[i].A)
      [] OTHER -> FALSE
----------------------------------------------------------------------------
RECURSIVE AddAll(_, _)
AddAll(st, bs) == IF bs = <<>> THEN st ELSE AddAll(Add(st, Head(bs).n, Head(bs).ln, Head(bs).pub), Tail(bs))
Priv(x) == [n |-> x.n, ln |-> x.ln, pub |-> FALSE]
FnState(imps, st, f) ==
    LET a == AddAll(Push(st), [i \in DOMAIN f.params |-> Priv(f.params[i])])
        b == Pop(Block(imps, a, f.body))
        \* a local of the outermost block may not redeclare a parameter
        re == { i \in DOMAIN f.body : f.body[i].k = "decl" /\ \E j \in DOMAIN f.params : f.params[j].n = f.body[i].x }
    IN [b EXCEPT !.fl = @ \cup (IF ~f.void /\ Falls(f.body) THEN {F("noreturn", f.n, f.ln)} ELSE {})
                          \cup { F("redeclared", f.body[i].x, f.body[i].ln) : i \in re }]
RECURSIVE Fns(_, _, _)
Fns(imps, st, fs) == IF fs = <<>> THEN st ELSE Fns(imps, FnState(imps, st, Head(fs)), Tail(fs))
Faults(m) ==
    LET imps == { m.imports[i] : i \in DOMAIN m.imports }
        s0 == [sc |-> <<<<>>>>, fl |-> {}, ns |-> {}]
        s1 == AddAll(s0, m.consts \o [i \in DOMAIN m.vars |-> Priv(m.vars[i])]
                         \o [i \in DOMAIN m.fns |-> [n |-> m.fns[i].n, ln |-> m.fns[i].ln, pub |-> m.fns[i].pub]])
        s2 == Pop(Fns(imps, s1, m.fns))
    IN s2.fl \cup { F("unusedimport", n, 1) : n \in imps \ s2.ns }
RECURSIVE HasRet(_)
HasRet(ss) == \E i \in DOMAIN ss : LET s == ss[i] IN
    CASE s.k = "ret" -> TRUE
      [] s.k \in {"while", "loop", "for"} -> HasRet(s.A)
      [] s.k = "if" -> HasRet(s.A) \/ (s.hasElse /\ HasRet(s.B))
      [] s.k = "sw" -> (s.hasDef /\ HasRet(s.def)) \/ \E j \in DOMAIN s.cases : HasRet(s.cases[j].A)
      [] OTHER -> FALSE
\* Functions that return on every path but not by their last statement, and value functions
\* that never return anything: not judged.
Unclear(m) == \E i \in DOMAIN m.fns : LET f == m.fns[i] IN ~f.void /\ ~Falls(f.body) /\ (~Ends(f.body) \/ ~HasRet(f.body))
=============================================================================
