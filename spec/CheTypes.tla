----------------------------- MODULE CheTypes -----------------------------
(* Typing of expressions. A type is a base name and the operations that lead
   to it, outermost first: "P" (dereference), "A" (index), [F]: a call with n
   arguments (v: at least n). Operands fall into classes; each operator
   admits certain pairs of classes. Unknown types (foreign names) admit
   everything.

   ops entries are records [o, n, v]; E.vars: names -> type,
   E.als: aliases -> type, E.sts: struct -> field -> type.                  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

P == [o |-> "P", n |-> 0, v |-> FALSE]
A == [o |-> "A", n |-> 0, v |-> FALSE]
T(b) == [ops |-> <<>>, b |-> b]
Unk == T("?")
Err(m) == [ops |-> <<>>, b |-> "!" \o m]
IsErr(t) == Len(t.b) > 0 /\ SubSeq(t.b, 1, 1) = "!"

Signed == {"int", "int8_t", "int16_t", "int32_t", "int64_t", "ptrdiff_t"}
Unsigned == {"size_t", "uint8_t", "uint16_t", "uint32_t", "uint64_t"}
Builtin == Signed \cup Unsigned \cup {"float", "double", "char", "bool", "void", "FILE", "number", "time_t"}
Width == [x \in Signed \cup Unsigned \cup {"float", "double"} |->
            CASE x \in {"int8_t", "uint8_t"} -> 8 [] x \in {"int16_t", "uint16_t"} -> 16
              [] x \in {"int", "int32_t", "uint32_t", "float"} -> 32 [] OTHER -> 64]
Wider(a, b) == IF Width[a.b] > Width[b.b] THEN a ELSE b

\* aliases stand for what they abbreviate; names of other modules are unknown
RECURSIVE Root(_, _)
Root(E, t) == IF t.b \in Builtin \/ t.b = "?" THEN t
              ELSE IF t.b \in E.foreign THEN Unk
              ELSE IF t.b \in DOMAIN E.als THEN Root(E, [ops |-> t.ops \o E.als[t.b].ops, b |-> E.als[t.b].b])
              ELSE t
Class(t) == IF t.ops # <<>> THEN IF t.ops[1].o = "P" THEN "ptr" ELSE IF t.ops[1].o = "A" THEN "arr" ELSE "none"
            ELSE CASE t.b \in Signed -> "sint" [] t.b \in Unsigned -> "uint" [] t.b \in {"float", "double"} -> "flt"
                   [] t.b = "number" -> "const" [] t.b = "char" -> "char" [] t.b = "bool" -> "bool"
                   [] t.b = "?" -> "unk" [] OTHER -> "none"
Num == {"sint", "uint", "flt"}
Ints == {"sint", "uint", "const"}
Pair(a, b, S) == <<a, b>> \in S \/ <<b, a>> \in S

\* * / % << >> & | ^
Arith(a, b) ==
    LET x == Class(a) y == Class(b) IN
    CASE y = "unk" -> b [] x = "unk" -> a
      [] x = "const" /\ y = "const" -> a
      [] x = y /\ x \in Num -> Wider(a, b)
      [] Pair(x, y, {<<"char", "const">>}) -> T("int")
      [] x = "const" /\ y \in Num -> b
      [] y = "const" /\ x \in Num -> a
      [] Pair(x, y, {<<"sint", "uint">>}) -> Wider(a, b)
      [] x \in {"sint", "uint"} /\ y = "flt" -> b
      [] y \in {"sint", "uint"} /\ x = "flt" -> a
      [] OTHER -> Err("arith")
PlusMinus(op, a, b) ==
    LET x == Class(a) y == Class(b) IN
    CASE x = "unk" -> a [] y = "unk" -> b
      [] x = "const" /\ y = "const" -> a
      [] x = y /\ x \in Num -> Wider(a, b)
      [] x = "const" /\ y \in Num -> b
      [] y = "const" /\ x \in Num -> a
      [] op = "-" /\ x = "ptr" /\ y = "ptr" -> T("ptrdiff_t")
      [] x \in {"ptr", "arr"} /\ y \in Ints -> a
      [] op = "+" /\ x \in Ints /\ y \in {"ptr", "arr"} -> b
      [] OTHER -> Err("sum")
Cmp(a, b) ==
    LET x == Class(a) y == Class(b) IN
    IF x = "unk" \/ y = "unk" THEN T("bool")
    ELSE IF \/ x = y /\ x \in {"flt", "sint", "uint", "char", "bool", "ptr", "const"}
            \/ x \in Num \cup {"char"} /\ y = "const"
            \/ y \in Num \cup {"char"} /\ x = "const"
            \/ Pair(x, y, {<<"char", "sint">>}) THEN T("bool")
    ELSE Err("comparison")
Booly(t) == Class(t) \in {"ptr", "sint", "uint", "bool", "unk"}
Logic(a, b) == IF Booly(a) /\ Booly(b) THEN T("bool") ELSE Err("boolean")

Deref(E, t) ==
    LET r == IF t.ops = <<>> THEN Root(E, t) ELSE t IN
    IF r.b = "?" /\ r.ops = <<>> THEN Unk
    ELSE IF r.ops # <<>> /\ r.ops[1].o = "P" THEN [r EXCEPT !.ops = Tail(@)] ELSE Err("dereference")
Index(E, t) ==
    IF t.ops = <<>> THEN Unk
    ELSE IF t.ops[1].o \in {"P", "A"} THEN [t EXCEPT !.ops = Tail(@)] ELSE Err("index")
Field(E, t, f) ==
    IF t.b \in DOMAIN E.sts /\ f \in DOMAIN E.sts[t.b] THEN E.sts[t.b][f] ELSE Unk
RECURSIVE CallOf(_, _, _)
CallOf(E, t, n) ==
    IF t = Unk THEN Unk
    ELSE IF t.ops # <<>> /\ t.ops[1].o = "F"
         THEN IF (IF t.ops[1].v THEN n >= t.ops[1].n ELSE n = t.ops[1].n) THEN [t EXCEPT !.ops = Tail(@)] ELSE Err("arguments")
    ELSE IF t.b \in DOMAIN E.als /\ (t.ops = <<>> \/ (Len(t.ops) = 1 /\ t.ops[1].o = "P")) THEN CallOf(E, E.als[t.b], n)
    ELSE Err("call")

\* expressions: [k |-> "v", n] [k |-> "lit", t] [k |-> "bin", op, a, b] [k |-> "pre", op, a] [k |-> "post", op, a]
\*  [k |-> "cast", t, a] [k |-> "idx", a, b] [k |-> "fld", a, f] [k |-> "call", f, as] [k |-> "sz", a]
FirstErr(ts) == LET S == { i \in 1..Len(ts) : IsErr(ts[i]) } IN
                IF S = {} THEN Unk ELSE ts[CHOOSE i \in S : \A j \in S : i <= j]
RECURSIVE TypeOf(_, _)
TypeOf(E, e) ==
    CASE e.k = "v" -> E.vars[e.n]
      [] e.k = "lit" -> e.t
      [] e.k = "bin" ->
            LET a == TypeOf(E, e.a) b == TypeOf(E, e.b) IN
            IF IsErr(a) THEN a ELSE IF IsErr(b) THEN b
            ELSE LET x == Root(E, a) y == Root(E, b) IN
                 CASE e.op \in {"||", "&&"} -> Logic(x, y)
                   [] e.op \in {"==", "!=", "<", ">", "<=", ">="} -> Cmp(x, y)
                   [] e.op \in {"+", "-"} -> PlusMinus(e.op, x, y)
                   [] e.op \in {"*", "/", "%", "<<", ">>", "&", "|", "^"} -> Arith(x, y)
                   [] OTHER -> T("void")
      [] e.k = "pre" ->
            LET a == TypeOf(E, e.a) IN
            IF IsErr(a) THEN a
            ELSE CASE e.op = "!" -> T("bool") [] e.op = "&" -> [a EXCEPT !.ops = <<P>> \o @]
                   [] e.op = "*" -> Deref(E, a) [] OTHER -> a
      [] e.k = "post" -> TypeOf(E, e.a)
      [] e.k = "cast" -> LET a == TypeOf(E, e.a) IN IF IsErr(a) THEN a ELSE e.t
      [] e.k = "sz" -> LET a == TypeOf(E, e.a) IN IF IsErr(a) THEN a ELSE T("size_t")
      [] e.k = "idx" ->
            LET a == TypeOf(E, e.a) b == TypeOf(E, e.b) IN
            IF IsErr(a) THEN a ELSE IF IsErr(b) THEN b ELSE Index(E, a)
      [] e.k = "fld" -> LET a == TypeOf(E, e.a) IN IF IsErr(a) THEN a ELSE Field(E, a, e.f)
      [] OTHER ->
            LET ts == [i \in 1..Len(e.as) |-> TypeOf(E, e.as[i])]
                x == FirstErr(ts)
                f == TypeOf(E, e.f)
            IN IF IsErr(x) THEN x ELSE IF IsErr(f) THEN f ELSE CallOf(E, f, Len(e.as))
\* where: "st" a statement, "if" an if condition, "loop" a while or for condition
Verdict(E, e, where) ==
    LET t == TypeOf(E, e) IN
    IF IsErr(t) THEN t.b
    ELSE IF where = "loop" /\ ~Booly(Root(E, t)) THEN "!condition" ELSE ""
=============================================================================
