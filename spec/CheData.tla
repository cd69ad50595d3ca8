------------------------------ MODULE CheData ------------------------------
(* Values and storage. Types: int (with a width), struct, fixed array, union
   (one storage for all members), pointer to a struct, pointer to a function.
   A variable holds one value; assignment copies values, parameters and
   results are copies, a pointer designates a place (a variable and a path of
   field names and indices inside it).

   types: [k |-> "int", bits, sg] | [k |-> "st", name] | [k |-> "arr", n, t]
        | [k |-> "un", ms |-> << [n, t] .. >>] | [k |-> "ptr", name] | [k |-> "fn"]
   values: Int | [fields -> value] | sequence | byte sequence | place | name  *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Pow2(n) == CASE n = 8 -> 256 [] n = 16 -> 65536 [] OTHER -> 2 ^ n
\* conversion of a number to an integer type on storing
Conv(t, v) ==
    IF t.bits >= 32 THEN v
    ELSE LET m == Pow2(t.bits)
             r == ((v % m) + m) % m
         IN IF t.sg /\ r >= m \div 2 THEN r - m ELSE r

NullPtr == [r |-> "", p |-> <<>>]

\* ---- a program's declarations: D.types is a sequence of [name, fs]
StructOf(D, nm) == LET i == CHOOSE j \in 1..Len(D.types) : D.types[j].name = nm IN D.types[i]
FieldType(D, nm, f) == LET s == StructOf(D, nm).fs IN s[CHOOSE j \in 1..Len(s) : s[j].n = f].t
MemberType(t, m) == t.ms[CHOOSE j \in 1..Len(t.ms) : t.ms[j].n = m].t

RECURSIVE Size(_)                       \* only of union members
Size(t) == IF t.k = "int" THEN t.bits \div 8 ELSE t.n * Size(t.t)
UnionSize(t) == LET S == { Size(t.ms[j].t) : j \in 1..Len(t.ms) } IN CHOOSE x \in S : \A y \in S : y <= x

RECURSIVE Zero(_, _)
Zero(D, t) ==
    CASE t.k = "int" -> 0
      [] t.k = "arr" -> [i \in 1..t.n |-> Zero(D, t.t)]
      [] t.k = "st" -> LET fs == StructOf(D, t.name).fs IN
                       [f \in { fs[j].n : j \in 1..Len(fs) } |-> Zero(D, FieldType(D, t.name, f))]
      [] t.k = "un" -> [i \in 1..UnionSize(t) |-> 0]
      [] t.k = "ptr" -> NullPtr
      [] OTHER -> ""

\* little endian storage of union members
RECURSIVE Decode(_, _, _)
Decode(t, b, o) ==
    IF t.k = "int"
    THEN IF t.bits = 8 THEN Conv(t, b[o + 1]) ELSE Conv(t, b[o + 1] + 256 * b[o + 2])
    ELSE [i \in 1..t.n |-> Decode(t.t, b, o + (i - 1) * Size(t.t))]
RECURSIVE Encode(_, _)
Encode(t, v) ==
    IF t.k = "int"
    THEN LET u == Conv([k |-> "int", bits |-> t.bits, sg |-> FALSE], v) IN
         IF t.bits = 8 THEN <<u>> ELSE <<u % 256, u \div 256>>
    ELSE FlattenSeq([i \in 1..t.n |-> Encode(t.t, v[i])])
Overlay(b, new) == [i \in 1..Len(b) |-> IF i <= Len(new) THEN new[i] ELSE b[i]]

\* ---- reading and writing at a path of [s |-> "f", n] and [s |-> "i", i]
RECURSIVE TypeAt(_, _, _)
TypeAt(D, t, p) ==
    IF p = <<>> THEN t
    ELSE CASE t.k = "st" -> TypeAt(D, FieldType(D, t.name, p[1].n), Tail(p))
           [] t.k = "un" -> TypeAt(D, MemberType(t, p[1].n), Tail(p))
           [] OTHER -> TypeAt(D, t.t, Tail(p))
RECURSIVE Get(_, _, _, _)
Get(D, t, v, p) ==
    IF p = <<>> THEN v
    ELSE CASE t.k = "st" -> Get(D, FieldType(D, t.name, p[1].n), v[p[1].n], Tail(p))
           [] t.k = "un" -> LET mt == MemberType(t, p[1].n) IN Get(D, mt, Decode(mt, v, 0), Tail(p))
           [] OTHER -> Get(D, t.t, v[p[1].i + 1], Tail(p))
RECURSIVE Put(_, _, _, _, _)
Put(D, t, v, p, x) ==
    IF p = <<>> THEN IF t.k = "int" THEN Conv(t, x) ELSE x
    ELSE CASE t.k = "st" -> [v EXCEPT ![p[1].n] = Put(D, FieldType(D, t.name, p[1].n), v[p[1].n], Tail(p), x)]
           [] t.k = "un" -> LET mt == MemberType(t, p[1].n) IN
                            Overlay(v, Encode(mt, Put(D, mt, Decode(mt, v, 0), Tail(p), x)))
           [] OTHER -> [v EXCEPT ![p[1].i + 1] = Put(D, t.t, v[p[1].i + 1], Tail(p), x)]

\* ---- machine state: [m: variable -> value, y: variable -> type, out: printed numbers]
Bind(s, x, t, v) == [s EXCEPT !.m = (x :> v) @@ s.m, !.y = (x :> t) @@ s.y]
Load(D, s, pl) == Get(D, s.y[pl.r], s.m[pl.r], pl.p)
Store(D, s, pl, v) == [s EXCEPT !.m[pl.r] = Put(D, s.y[pl.r], s.m[pl.r], pl.p, v)]

RECURSIVE Place(_, _, _)
RECURSIVE Eval(_, _, _)
RECURSIVE Walk(_, _, _, _)
\* the place an lvalue designates: steps f, i (index expression), d (dereference)
Place(D, s, lv) == Walk(D, s, [r |-> lv.r, p |-> <<>>], lv.p)
Walk(D, s, pl, steps) ==
    IF steps = <<>> THEN pl
    ELSE LET h == steps[1] IN
         CASE h.s = "f" -> Walk(D, s, [pl EXCEPT !.p = Append(@, [s |-> "f", n |-> h.n])], Tail(steps))
           [] h.s = "i" -> Walk(D, s, [pl EXCEPT !.p = Append(@, [s |-> "i", i |-> Eval(D, s, h.e)])], Tail(steps))
           [] OTHER -> Walk(D, s, Load(D, s, pl), Tail(steps))
\* D.enums: groups of entries [n, x, v, ref]; x = "v": value v; "r": value of ref plus v;
\* "n": one more than the entry before, 0 for the first
RECURSIVE EnumVal(_, _)
EnumVal(D, nm) ==
    LET g == CHOOSE j \in 1..Len(D.enums) : \E q \in 1..Len(D.enums[j]) : D.enums[j][q].n = nm
        q == CHOOSE j \in 1..Len(D.enums[g]) : D.enums[g][j].n = nm
        e == D.enums[g][q]
    IN CASE e.x = "v" -> e.v
         [] e.x = "r" -> EnumVal(D, e.ref) + e.v
         [] OTHER -> IF q = 1 THEN 0 ELSE EnumVal(D, D.enums[g][q - 1].n) + 1
Eval(D, s, e) ==
    CASE e.k = "lit" -> e.v
      [] e.k = "enum" -> EnumVal(D, e.n)
      [] e.k = "ld" -> Load(D, s, Place(D, s, e.lv))
      [] e.k = "add" -> Load(D, s, Place(D, s, e.lv)) + e.v
      [] e.k = "adr" -> Place(D, s, e.lv)
      [] e.k = "null" -> NullPtr
      [] e.k = "fun" -> e.n
      [] e.k = "cast" -> Eval(D, s, e.e)         \* between pointer types: the same place
      [] e.k = "szp" -> 8                        \* the size of a pointer type
      [] OTHER -> LET pl == Place(D, s, e.lv) IN TypeAt(D, s.y[pl.r], pl.p).n      \* "nel": number of elements

\* composite literals: designated entries set the position, the rest follows on;
\* everything not mentioned is zero
FieldAt(D, t, k) == IF t.k = "un" THEN [s |-> "f", n |-> t.ms[k].n] ELSE IF t.k = "st" THEN [s |-> "f", n |-> StructOf(D, t.name).fs[k].n] ELSE [s |-> "i", i |-> k - 1]
IndexOfField(D, t, f) == LET fs == IF t.k = "un" THEN t.ms ELSE StructOf(D, t.name).fs IN CHOOSE j \in 1..Len(fs) : fs[j].n = f
RECURSIVE Lit(_, _, _, _)
RECURSIVE LitFrom(_, _, _, _, _, _)
Lit(D, s, t, x) == IF x.k = "comp" THEN LitFrom(D, s, t, x.es, 1, Zero(D, t))
                   ELSE IF t.k = "int" THEN Conv(t, Eval(D, s, x.e)) ELSE Eval(D, s, x.e)
LitFrom(D, s, t, es, pos, v) ==
    IF es = <<>> THEN v
    ELSE LET h == es[1]
             k == CASE h.s = "f" -> IndexOfField(D, t, h.n) [] h.s = "i" -> h.i + 1 [] OTHER -> pos
             st == FieldAt(D, t, k)
             sub == CASE t.k = "st" -> FieldType(D, t.name, st.n) [] t.k = "un" -> MemberType(t, st.n) [] OTHER -> t.t
         IN LitFrom(D, s, t, Tail(es), k + 1, Put(D, t, v, <<st>>, Lit(D, s, sub, h.v)))

FunOf(D, nm) == LET i == CHOOSE j \in 1..Len(D.fns) : D.fns[j].n = nm IN D.fns[i]
RECURSIVE Exec(_, _, _)
RECURSIVE Step(_, _, _)
RECURSIVE Call(_, _, _, _)
RECURSIVE BindArgs(_, _, _, _, _)
Exec(D, s, ss) == IF ss = <<>> THEN s ELSE Exec(D, Step(D, s, ss[1]), Tail(ss))
\* arguments are evaluated in the caller's state and copied into fresh variables
BindArgs(D, s0, s, ps, as) ==
    IF ps = <<>> THEN s
    ELSE LET v == Eval(D, s0, as[1])
             w == IF ps[1].t.k = "int" THEN Conv(ps[1].t, v) ELSE v
         IN BindArgs(D, s0, Bind(s, ps[1].n, ps[1].t, w), Tail(ps), Tail(as))
\* the state after the call; the result is left in variable "<result>"
Call(D, s, f, as) ==
    LET F == FunOf(D, f)
        s1 == Exec(D, BindArgs(D, s, s, F.params, as), F.body)
    IN IF F.ret.k = "void" THEN s1
       ELSE LET v == Eval(D, s1, F.ret.e) IN
            Bind(s1, "<result>", F.ret.t, IF F.ret.t.k = "int" THEN Conv(F.ret.t, v) ELSE v)
\* the destination of a call's result is a place fixed before the call
Into(D, s, f, as, dst) ==
    IF dst = <<>> THEN Call(D, s, f, as)
    ELSE LET s1 == Call(D, s, f, as) IN Store(D, s1, Place(D, s, dst[1]), s1.m["<result>"])
Step(D, s, x) ==
    CASE x.k = "set" -> Store(D, s, Place(D, s, x.lv), Eval(D, s, x.e))
      [] x.k = "inc" -> LET pl == Place(D, s, x.lv) IN Store(D, s, pl, Load(D, s, pl) + x.v)
      [] x.k = "decl" -> Bind(s, x.x, x.t, Lit(D, s, x.t, x.ini))
      [] x.k = "call" -> Into(D, s, x.f, x.as, x.dst)
      [] x.k = "calli" -> Into(D, s, Load(D, s, Place(D, s, x.lv)), x.as, x.dst)
      [] OTHER -> [s EXCEPT !.out = Append(@, IF x.e.k = "isnull" THEN IF Load(D, s, Place(D, s, x.e.lv)) = NullPtr THEN 1 ELSE 0
                                              ELSE Eval(D, s, x.e))]
\* module variables are initialised in order, then main runs
Run(D) == Exec(D, [m |-> <<>>, y |-> <<>>, out |-> <<>>], D.globals \o D.main).out
=============================================================================
