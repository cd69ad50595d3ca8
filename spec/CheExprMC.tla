----------------------------- MODULE CheExprMC -----------------------------
(* Bounded-exhaustive family of expressions: every pair (and, for the
   postfix/prefix forms, triple) of adjacent constructs.  One state per
   expression.  Invariants: the rendering parses back to the same tree under
   the language's own grammar, typing is preserved by parentheses.
   Emit prints the conformance vector of each usable expression.             *)
EXTENDS CheExpr, Json, SequencesExt
CONSTANT Wide   \* TRUE: the larger family
VARIABLE e

V(x) == [k |-> "var", x |-> x]
F(x) == [k |-> "fun", x |-> x]
N(n) == [k |-> "num", n |-> n]
Bin(o, l, r) == [k |-> "bin", op |-> o, l |-> l, r |-> r]
Asg(o, l, r) == [k |-> "asg", op |-> o, l |-> l, r |-> r]
Pre(o, x) == [k |-> "pre", op |-> o, e |-> x]
Post(o, x) == [k |-> "post", op |-> o, e |-> x]
Idx(a, i) == [k |-> "idx", a |-> a, i |-> i]
Fld(x, f) == [k |-> "fld", e |-> x, f |-> f]
Arw(x, f) == [k |-> "arw", e |-> x, f |-> f]
Call(f, as) == [k |-> "call", f |-> f, args |-> as]
Cast(t, x) == [k |-> "cast", t |-> t, e |-> x]
SzE(x) == [k |-> "sze", e |-> x]
SzT(t) == [k |-> "szt", t |-> t]
Par(x) == [k |-> "par", e |-> x]

BinOps == Arith \cup Cmp \cup {"+", "-", "&&", "||"}
Triples == {<<V("a"), V("b"), V("c")>>, <<V("c"), V("a"), V("b")>>, <<V("d"), V("c"), N(5)>>, <<N(9), V("b"), V("u")>>}
           \cup (IF Wide THEN {<<V("b"), V("a"), N(1)>>, <<V("u"), V("a"), V("c")>>, <<N(100), N(7), V("b")>>} ELSE {})
BB == { Bin(o1, Bin(o2, t[1], t[2]), t[3]) : o1 \in BinOps, o2 \in BinOps, t \in Triples }
 \cup { Bin(o1, t[1], Bin(o2, t[2], t[3])) : o1 \in BinOps, o2 \in BinOps, t \in Triples }
 \cup { Bin(o1, Cast("int", Bin(o2, t[1], t[2])), t[3]) : o1 \in BinOps, o2 \in Cmp, t \in Triples }
 \cup { Bin(o1, t[1], Cast("int", Bin(o2, t[2], t[3]))) : o1 \in BinOps, o2 \in Cmp, t \in Triples }
\* integer lvalues, pointers and structs reached in different ways
LvInt == { V("a"), Pre("*", V("p")), Idx(V("arr"), N(2)), Idx(V("p"), V("c")), Fld(V("s"), "x"), Arw(V("ps"), "y"),
           Pre("*", Bin("+", V("p"), N(1))), Fld(Pre("*", V("ps")), "y"), Fld(Idx(V("sa"), N(1)), "y"),
           Arw(Arw(V("ps"), "next"), "x"), Idx(Fld(Idx(V("pa"), N(1)), "z"), N(0)), Pre("*", Pre("*", V("pp"))),
           Idx(Pre("*", V("pp")), N(1)), Idx(Bin("+", V("p"), N(1)), N(0)), Idx(Arw(V("ps"), "z"), N(1)),
           Arw(Bin("+", V("pa"), N(1)), "x"), Arw(Pre("&", Idx(V("sa"), N(1))), "y"), Arw(Cast("Sp", Pre("&", Fld(V("s"), "x"))), "y"),
           Idx(Cast("intp", V("vp")), N(1)), Pre("*", Cast("intp", V("vp"))), Fld(Pre("*", Arw(V("ps"), "next")), "x"),
           Arw(Pre("*", V("psp")), "x"), Arw(Idx(V("psp"), N(0)), "x"), Idx(Pre("&", Idx(V("arr"), N(1))), N(1)),
           Pre("*", Pre("&", V("b"))), Fld(Pre("*", Bin("+", V("pa"), N(1))), "y"), Arw(Call(F("getst"), <<N(1)>>), "x"),
           Idx(Call(F("getp"), <<N(1)>>), N(1)), Pre("*", Call(F("getp"), <<N(2)>>)), Pre("*", Post("++", V("p"))),
           Pre("*", Pre("++", V("p"))), Pre("*", Post("--", V("q"))), Arw(Post("++", V("pa")), "x"), Arw(Pre("++", V("pa")), "x"),
           Idx(Post("++", V("p")), N(0)), Pre("*", Bin("+", N(1), V("p"))), Idx(V("arr"), Bin("-", V("b"), V("c"))),
           Idx(V("arr"), Idx(V("arr"), Bin("-", V("a"), V("a")))), Arw(Arw(Arw(V("ps"), "next"), "next"), "y"),
           Fld(Idx(Pre("*", V("psp")), N(0)), "x"), Idx(Fld(Pre("*", V("ps")), "z"), N(1)), Pre("*", Arw(V("ps"), "z")) }
PtrE == { V("p"), V("q"), Pre("*", V("pp")), Pre("&", Idx(V("arr"), N(2))), Bin("+", V("p"), N(1)), Bin("-", V("q"), V("c")),
          Pre("&", V("a")), Pre("&", Fld(V("s"), "y")), Pre("&", Arw(V("ps"), "x")), Pre("&", Pre("*", V("p"))),
          Cast("intp", V("vp")), Call(F("getp"), <<N(3)>>), Pre("&", Idx(V("p"), N(1))), Bin("+", N(1), V("p")), Post("++", V("p")), Pre("--", V("q")) }
Un == {"-", "~", "!"}
U1 == { Pre(o, x) : o \in Un \cup {"++", "--"}, x \in LvInt }
 \cup { Post(o, x) : o \in {"++", "--"}, x \in LvInt }
 \cup { Pre("&", x) : x \in LvInt } \cup { Pre("*", x) : x \in PtrE } \cup { Pre("!", x) : x \in PtrE }
 \cup { Cast(t, x) : t \in CastTypes, x \in LvInt }
 \cup LvInt \cup PtrE
U2 == { Pre(o, y) : o \in Un, y \in { Pre(o2, x) : o2 \in Un \cup {"++", "--"}, x \in {V("a"), Pre("*", V("p"))} } }
 \cup { Pre(o, Post(o2, V("a"))) : o \in Un, o2 \in {"++", "--"} }
 \cup { Pre(o, Bin(o2, V("a"), V("b"))) : o \in Un, o2 \in BinOps }
 \cup { Pre(o, Cast(t, Bin(o2, V("u"), V("b")))) : o \in Un, o2 \in BinOps, t \in CastTypes }
 \cup { Cast(t, Pre(o, V("u"))) : o \in Un, t \in CastTypes }
 \cup { Cast(t, Cast(t2, Bin("*", V("u"), V("b")))) : t \in CastTypes, t2 \in CastTypes }
 \cup { Cast(t, Bin(o, V("u"), V("b"))) : t \in CastTypes, o \in BinOps }
 \cup { Bin(o, Cast(t, V("u")), V("b")) : t \in CastTypes, o \in BinOps }
 \cup { Bin(o, V("b"), Cast(t, V("u"))) : t \in CastTypes, o \in BinOps }
 \cup { Bin(o, Pre(o2, V("a")), V("c")) : o \in BinOps, o2 \in Un \cup {"++", "--"} }
 \cup { Bin(o, V("c"), Pre(o2, V("a"))) : o \in BinOps, o2 \in Un \cup {"++", "--"} }
 \cup { Bin(o, Post(o2, V("a")), V("c")) : o \in BinOps, o2 \in {"++", "--"} }
 \cup { Bin(o, V("c"), Post(o2, V("a"))) : o \in BinOps, o2 \in {"++", "--"} }
 \cup { Pre(o, Par(Pre(o, V("a")))) : o \in Un }
L1 == { Bin(o, x, V("b")) : o \in {"*", "-", "&", "<<", "==", "<", "&&"}, x \in LvInt }
 \cup { Bin(o, V("b"), x) : o \in {"*", "-", "&", "%", "==", "<", "||"}, x \in LvInt }
 \cup { Bin(o, x, N(1)) : o \in {"+", "-"}, x \in PtrE } \cup { Bin("-", x, V("p")) : x \in PtrE }
 \cup { Bin(o, x, V("q")) : o \in Cmp, x \in PtrE } \cup { Bin(o, x, V("a")) : o \in {"&&", "||"}, x \in PtrE }
A1 == { Asg(o, x, y) : o \in AsgOps, x \in LvInt, y \in {N(2), V("b"), Bin("+", V("b"), V("c"))} }
 \cup { Asg(o, V("p"), N(1)) : o \in {"+=", "-="} } \cup { Asg("=", V("p"), x) : x \in PtrE } \cup { Asg("=", Pre("*", V("pp")), x) : x \in PtrE }
 \cup { Asg(o, V("a"), Asg(o2, V("b"), V("c"))) : o \in AsgOps, o2 \in AsgOps }
 \cup { Asg(o, V("a"), Par(Asg(o2, V("b"), V("c")))) : o \in AsgOps, o2 \in AsgOps }
 \cup { Asg(o, V("a"), Bin(o2, V("b"), V("c"))) : o \in AsgOps, o2 \in BinOps }
 \cup { Asg(o, V("u"), Bin(o2, V("a"), V("b"))) : o \in AsgOps, o2 \in {"+", "*", "-"} }
Tk(n) == Call(F("tick"), <<N(n)>>)
Lg == { Bin(o1, Bin(o2, Tk(x), Tk(y)), Tk(z)) : o1 \in {"&&", "||"}, o2 \in {"&&", "||"}, x \in {0, 3}, y \in {0, 4}, z \in {0, 5} }
 \cup { Bin(o1, Tk(x), Bin(o2, Tk(y), Tk(z))) : o1 \in {"&&", "||"}, o2 \in {"&&", "||"}, x \in {0, 3}, y \in {0, 4}, z \in {0, 5} }
 \cup { Bin(o1, Pre("!", Tk(x)), Bin(o2, Tk(y), V("b"))) : o1 \in {"&&", "||"}, o2 \in Cmp, x \in {0, 3}, y \in {0, 4} }
 \cup { Bin(o1, Bin(o2, Tk(x), Tk(y)), Bin(o3, Tk(z), Tk(x))) : o1 \in {"&&", "||"}, o2 \in {"&&", "||"}, o3 \in {"&&", "||"}, x \in {0, 3}, y \in {0, 4}, z \in {0, 5} }
C1 == { Call(F("add"), <<x, y>>) : x \in {V("a"), N(3), Bin("-", V("a"), V("b")), Pre("-", V("c"))}, y \in {V("b"), Bin("*", V("a"), V("b")), Cast("uint8_t", V("d"))} }
 \cup { Call(Pre("*", V("fp")), <<V("a"), V("b")>>), Call(V("fp"), <<V("a"), V("b")>>), Call(Par(F("add")), <<V("a"), V("b")>>),
        Bin("-", V("a"), Call(V("fp"), <<N(1), N(2)>>)), Pre("-", Call(Pre("*", V("fp")), <<V("a"), V("b")>>)),
        Call(F("add"), <<Call(F("neg"), <<V("a")>>), Call(F("neg"), <<V("b")>>)>>),
        Call(F("neg"), <<Call(F("neg"), <<Bin("-", V("a"), Bin("-", V("b"), V("c")))>>)>>) }
Sz == { SzE(x) : x \in {y \in LvInt \cup PtrE \cup {V("arr"), V("sa"), V("s"), Pre("*", V("ps")), V("u"), Bin("+", V("u"), V("u")), Cast("uint8_t", V("a")), Arw(V("ps"), "z")} : ~HasEff(y)} }
 \cup { SzT(t) : t \in {"int", "uint8_t", "uint16_t", "S", "intp", "Sp", "size_t"} }
 \cup { Bin(o, SzT("int"), N(2)) : o \in {"*", "+", "/", "-"} } \cup { Bin("*", N(2), SzE(V("arr"))), Bin("/", SzE(V("arr")), SzE(Idx(V("arr"), N(0)))) }
\* three-construct postfix/prefix combinations
W3 == IF ~Wide THEN {} ELSE
      { Bin(o1, Bin(o2, V("a"), V("b")), Bin(o3, V("c"), V("b"))) : o1 \in BinOps, o2 \in BinOps, o3 \in BinOps }
 \cup { Bin(o1, V("a"), Bin(o2, V("b"), Bin(o3, V("c"), V("b")))) : o1 \in {"-", "/", "%", "<<", "+", "*"}, o2 \in {"-", "/", "%", "<<", "+", "*"}, o3 \in {"-", "/", "%", "<<", "+", "*"} }
 \cup { Pre(o1, Pre(o2, x)) : o1 \in Un, o2 \in Un, x \in LvInt }
 \cup { Pre(o1, Post(o2, x)) : o1 \in Un, o2 \in {"++", "--"}, x \in LvInt }
 \cup { Bin(o, x, y) : o \in BinOps, x \in LvInt, y \in LvInt }
Cases == BB \cup U1 \cup U2 \cup L1 \cup A1 \cup Lg \cup C1 \cup Sz \cup W3

----------------------------------------------------------------------------
(* The grammar, as a token-level parser (independent of Tok).                *)
TypeNames == CastTypes \cup {"S", "void", "size_t", "bool"}
NumToks == [ n \in {ToString(k) : k \in 0..300} |-> CHOOSE k \in 0..300 : ToString(k) = n ]
At(ts, i) == IF i <= Len(ts) THEN ts[i] ELSE "EOF"
LvlOps(l) == CASE l = 2 -> AsgOps [] l = 3 -> {"||"} [] l = 4 -> {"&&"} [] l = 5 -> {"|"} [] l = 6 -> {"^"} [] l = 7 -> {"&"}
               [] l = 8 -> {"==", "!="} [] l = 9 -> {"<", ">", "<=", ">="} [] l = 10 -> {"<<", ">>"} [] l = 11 -> {"+", "-"} [] l = 12 -> {"*", "/", "%"}
PR(x, i) == [e |-> x, i |-> i]
RECURSIVE PExp(_, _, _), PSeq(_, _, _, _), PPre(_, _), PPost(_, _, _), PAtom(_, _), PArgs(_, _, _)
PType(ts, i) == \* a type, maybe with a star
  IF At(ts, i + 1) = "*" THEN PR(CASE ts[i] = "int" -> "intp" [] ts[i] = "S" -> "Sp" [] ts[i] = "void" -> "voidp", i + 2) ELSE PR(ts[i], i + 1)
PExp(ts, i, l) ==
  IF l = 13 THEN PPre(ts, i)
  ELSE IF l = 2 THEN \* right associative
    LET x == PExp(ts, i, 3) IN
    IF At(ts, x.i) \in AsgOps THEN LET y == PExp(ts, x.i + 1, 2) IN PR(Asg(ts[x.i], x.e, y.e), y.i) ELSE x
  ELSE LET x == PExp(ts, i, l + 1) IN PSeq(ts, x.i, l, x.e)
PSeq(ts, i, l, acc) ==
  IF At(ts, i) \in LvlOps(l) THEN LET y == PExp(ts, i + 1, l + 1) IN PSeq(ts, y.i, l, Bin(ts[i], acc, y.e)) ELSE PR(acc, i)
PPre(ts, i) ==
  IF ts[i] \in {"-", "~", "!", "*", "&", "++", "--"} THEN LET x == PPre(ts, i + 1) IN PR(Pre(ts[i], x.e), x.i)
  ELSE IF ts[i] = "(" /\ At(ts, i + 1) \in TypeNames THEN
       LET t == PType(ts, i + 1) x == PPre(ts, t.i + 1) IN PR(Cast(t.e, x.e), x.i)
  ELSE IF ts[i] = "sizeof" THEN
       (IF ts[i + 2] \in TypeNames THEN LET t == PType(ts, i + 2) IN PR(SzT(t.e), t.i + 1)
        ELSE LET x == PExp(ts, i + 2, 2) IN PR(SzE(x.e), x.i + 1))
  ELSE LET x == PAtom(ts, i) IN PPost(ts, x.i, x.e)
PAtom(ts, i) ==
  IF ts[i] = "(" THEN LET x == PExp(ts, i + 1, 2) IN PR(Par(x.e), x.i + 1)
  ELSE IF ts[i] \in DOMAIN NumToks THEN PR(N(NumToks[ts[i]]), i + 1)
  ELSE IF ts[i] \in DOMAIN Vars THEN PR(V(ts[i]), i + 1) ELSE PR(F(ts[i]), i + 1)
PArgs(ts, i, acc) ==
  IF ts[i] = ")" THEN PR(acc, i + 1)
  ELSE LET x == PExp(ts, i, 2) IN IF ts[x.i] = "," THEN PArgs(ts, x.i + 1, Append(acc, x.e)) ELSE PR(Append(acc, x.e), x.i + 1)
PPost(ts, i, acc) ==
  IF At(ts, i) = "(" THEN LET a == PArgs(ts, i + 1, <<>>) IN PPost(ts, a.i, Call(acc, a.e))
  ELSE IF At(ts, i) = "[" THEN LET x == PExp(ts, i + 1, 2) IN PPost(ts, x.i + 1, Idx(acc, x.e))
  ELSE IF At(ts, i) \in {"++", "--"} THEN PPost(ts, i + 1, Post(ts[i], acc))
  ELSE IF At(ts, i) = "." THEN PPost(ts, i + 2, Fld(acc, ts[i + 1]))
  ELSE IF At(ts, i) = "->" THEN PPost(ts, i + 2, Arw(acc, ts[i + 1]))
  ELSE PR(acc, i)
Parse(ts) == PExp(ts, 1, 2)
RECURSIVE Strip(_)
Strip(x) == CASE x.k = "par" -> Strip(x.e)
   [] x.k \in {"bin", "asg"} -> [x EXCEPT !.l = Strip(x.l), !.r = Strip(x.r)]
   [] x.k \in {"pre", "post", "fld", "arw", "cast", "sze"} -> [x EXCEPT !.e = Strip(x.e)]
   [] x.k = "idx" -> [x EXCEPT !.a = Strip(x.a), !.i = Strip(x.i)]
   [] x.k = "call" -> [x EXCEPT !.f = Strip(x.f), !.args = [j \in 1..Len(x.args) |-> Strip(x.args[j])]]
   [] OTHER -> x
----------------------------------------------------------------------------
Init == e \in Cases
Next == FALSE /\ e' = e
Spec == Init /\ [][Next]_e
RoundTrip == LET r == Parse(Tok(e)) IN r.i = Len(Tok(e)) + 1 /\ Strip(r.e) = Strip(e)
ParTyping == Ty(Par(e)) = Ty(e)
\* evaluating never touches cells outside the world and stores in-window values
Sane == Usable(e) => LET r == Run(e) IN Len(r.m) = NCells /\ \A i \in 1..NCells : InWin(r.m[i])
Emit == Usable(e) => LET r == Run(e) IN PrintT("VEC " \o ToJson([t |-> Tok(e), ty |-> Ty(e), v |-> r.v, m |-> r.m, log |-> r.log]))
=============================================================================
