------------------------------ MODULE CheExpr ------------------------------
(* Expressions of the language: concrete syntax (minimal parentheses by the
   documented C precedence), static typing classes, and evaluation over an
   explicit memory.  An expression is a record with a field "k":
     num n | var x | bin op l r | pre op e | post op e | idx a i
     fld e f (a.f) | arw e f (a->f) | call f args | cast t e
     szt t | sze e | par e | asg op l r
   Values are integers; pointers are integers too (cell addresses).          *)
EXTENDS Integers, Sequences, FiniteSets, TLC

----------------------------------------------------------------------------
(* Memory layout of the test world shared with the driver program.           *)
S_SIZE == 5
FieldOff == [x |-> 0, y |-> 1, z |-> 2, next |-> 4]
Vars == [ a  |-> [addr |-> 1,  t |-> "int"],
          b  |-> [addr |-> 2,  t |-> "int"],
          c  |-> [addr |-> 3,  t |-> "int"],
          d  |-> [addr |-> 4,  t |-> "int"],
          arr|-> [addr |-> 5,  t |-> "arr"],
          p  |-> [addr |-> 9,  t |-> "ptr"],
          q  |-> [addr |-> 10, t |-> "ptr"],
          pp |-> [addr |-> 11, t |-> "pp"],
          s  |-> [addr |-> 12, t |-> "S"],
          ps |-> [addr |-> 17, t |-> "sptr"],
          sa |-> [addr |-> 18, t |-> "sarr"],
          pa |-> [addr |-> 28, t |-> "sptr"],
          u  |-> [addr |-> 29, t |-> "uint8_t"],
          vp |-> [addr |-> 30, t |-> "vptr"],
          fp |-> [addr |-> 31, t |-> "fnp"],
          psp|-> [addr |-> 32, t |-> "spp"] ]
NCells == 32
Mem0 == << 7, 3, 2, -5,            \* a b c d
           11, 13, 17, 19,         \* arr
           6, 8, 9,                \* p=&arr[1] q=&arr[3] pp=&p
           21, 22, 23, 24, 18,     \* s = {21,22,{23,24},&sa[0]}
           12,                     \* ps=&s
           31, 32, 33, 34, 23,     \* sa[0], next=&sa[1]
           41, 42, 43, 44, 12,     \* sa[1], next=&s
           18,                     \* pa=&sa[0]
           200, 6, 0, 17 >>        \* u, vp=(void*)&arr[1], fp, psp=&ps

----------------------------------------------------------------------------
(* Static types, following the operand classes the translator documents.     *)
PtrTypes == {"ptr", "pp", "sptr", "vptr", "fnp", "spp"}
ArrTypes == {"arr", "sarr"}
SInt == {"int", "int8_t", "int16_t", "int32_t", "ptrdiff_t"}
UInt == {"uint8_t", "uint16_t", "size_t"}
Width(t) == CASE t \in {"int", "int32_t"} -> 32 [] t \in {"int8_t", "uint8_t"} -> 8
              [] t \in {"int16_t", "uint16_t"} -> 16 [] t \in {"size_t", "ptrdiff_t"} -> 64
Widest(x, y) == IF Width(x) > Width(y) THEN x ELSE y
IntT(t) == t \in SInt \cup UInt
Numy(t) == IntT(t) \/ t = "num"
Booly(t) == t \in PtrTypes \/ IntT(t) \/ t = "bool"
DerefT(t) == CASE t \in {"ptr", "arr"} -> "int" [] t = "pp" -> "ptr" [] t \in {"sptr", "sarr"} -> "S"
               [] t = "fnp" -> "fn" [] t = "spp" -> "sptr" [] OTHER -> "ERR"
AddrT(t) == CASE t = "int" -> "ptr" [] t = "ptr" -> "pp" [] t = "S" -> "sptr" [] t = "sptr" -> "spp" [] OTHER -> "ERR"
FieldT(f) == CASE f \in {"x", "y"} -> "int" [] f = "z" -> "arr" [] f = "next" -> "sptr" [] OTHER -> "ERR"
CastTypes == {"int", "uint8_t", "int8_t", "uint16_t", "int16_t"}
CastPtr == [intp |-> "ptr", Sp |-> "sptr", voidp |-> "vptr"]
Arith == {"*", "/", "%", "<<", ">>", "&", "|", "^"}
Cmp == {"==", "!=", "<", ">", "<=", ">="}
AsgOps == {"=", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "<<=", ">>="}
Funcs == [add |-> 2, neg |-> 1, tick |-> 1, getp |-> 1, getst |-> 1]
FuncRet(f) == CASE f = "getp" -> "ptr" [] f = "getst" -> "sptr" [] OTHER -> "int"

RECURSIVE Ty(_)
TyArith(x, y) ==
  IF x = "num" /\ y = "num" THEN "num"
  ELSE IF x = "num" /\ IntT(y) THEN y
  ELSE IF IntT(x) /\ y = "num" THEN x
  ELSE IF IntT(x) /\ IntT(y) THEN Widest(x, y)
  ELSE "ERR"
TyAdd(op, x, y) ==
  IF Numy(x) /\ Numy(y) THEN
       (IF (x \in SInt /\ y \in UInt) \/ (x \in UInt /\ y \in SInt) THEN "ERR"   \* mixed signedness is not added implicitly
        ELSE TyArith(x, y))
  ELSE IF op = "-" /\ x \in PtrTypes /\ x = y THEN "ptrdiff_t"
  ELSE IF x \in PtrTypes \cup ArrTypes /\ Numy(y) THEN x
  ELSE IF op = "+" /\ Numy(x) /\ y \in PtrTypes \cup ArrTypes THEN y
  ELSE "ERR"
TyCmp(x, y) ==
  IF (x \in SInt /\ y \in SInt) \/ (x \in UInt /\ y \in UInt) \/ (x = "bool" /\ y = "bool")
     \/ (Numy(x) /\ y = "num") \/ (x = "num" /\ Numy(y)) \/ (x \in PtrTypes /\ x = y)
  THEN "bool" ELSE "ERR"
IsLval(e) == e.k \in {"var", "idx", "fld", "arw"} \/ (e.k = "pre" /\ e.op = "*") \/ (e.k = "par")
Ty(e) ==
  CASE e.k = "num" -> "num"
    [] e.k = "var" -> Vars[e.x].t
    [] e.k = "par" -> Ty(e.e)
    [] e.k = "bin" ->
       LET x == Ty(e.l) y == Ty(e.r) IN
       IF x = "ERR" \/ y = "ERR" THEN "ERR"
       ELSE IF e.op \in {"&&", "||"} THEN (IF Booly(x) /\ Booly(y) THEN "bool" ELSE "ERR")
       ELSE IF e.op \in Cmp THEN TyCmp(x, y)
       ELSE IF e.op \in {"+", "-"} THEN TyAdd(e.op, x, y)
       ELSE TyArith(x, y)
    [] e.k = "pre" ->
       LET x == Ty(e.e) IN
       IF x = "ERR" THEN "ERR"
       ELSE IF e.op = "!" THEN (IF Booly(x) \/ x = "num" THEN "bool" ELSE "ERR")
       ELSE IF e.op \in {"-", "~"} THEN (IF Numy(x) THEN x ELSE "ERR")
       ELSE IF e.op \in {"++", "--"} THEN (IF IsLval(e.e) /\ (IntT(x) \/ x \in {"ptr", "sptr"}) THEN x ELSE "ERR")
       ELSE IF e.op = "*" THEN (IF x \in PtrTypes THEN DerefT(x) ELSE "ERR")
       ELSE (IF IsLval(e.e) THEN AddrT(x) ELSE "ERR")
    [] e.k = "post" ->
       LET x == Ty(e.e) IN IF x # "ERR" /\ IsLval(e.e) /\ (IntT(x) \/ x \in {"ptr", "sptr"}) THEN x ELSE "ERR"
    [] e.k = "idx" ->
       LET x == Ty(e.a) y == Ty(e.i) IN
       IF x \in {"ptr", "pp", "sptr", "spp", "arr", "sarr"} /\ Numy(y) THEN DerefT(x) ELSE "ERR"
    [] e.k = "fld" -> IF Ty(e.e) = "S" THEN FieldT(e.f) ELSE "ERR"
    [] e.k = "arw" -> IF Ty(e.e) = "sptr" THEN FieldT(e.f) ELSE "ERR"
    [] e.k = "call" ->
       IF \E i \in 1..Len(e.args) : ~(Numy(Ty(e.args[i])) \/ Ty(e.args[i]) = "bool") THEN "ERR"
       ELSE IF e.f.k = "fun" THEN (IF Len(e.args) = Funcs[e.f.x] THEN FuncRet(e.f.x) ELSE "ERR")
       ELSE (IF Ty(e.f) \in {"fnp", "fn"} /\ Len(e.args) = 2 THEN "int" ELSE "ERR")
    [] e.k = "cast" ->
       LET x == Ty(e.e) IN
       IF x = "ERR" THEN "ERR"
       ELSE IF e.t \in CastTypes THEN (IF Numy(x) \/ x = "bool" THEN e.t ELSE "ERR")
       ELSE (IF x \in {"ptr", "sptr", "vptr"} THEN CastPtr[e.t] ELSE "ERR")
    [] e.k = "szt" -> "size_t"
    [] e.k = "sze" -> IF Ty(e.e) \in {"ERR", "fn", "num", "bool"} THEN "ERR" ELSE "size_t"
    [] e.k = "asg" ->
       LET x == Ty(e.l) y == Ty(e.r) IN
       IF ~IsLval(e.l) \/ x = "ERR" \/ y = "ERR" THEN "ERR"
       ELSE IF IntT(x) THEN (IF Numy(y) \/ y = "bool" \/ (y = "void" /\ e.r.k = "asg" /\ IntT(Ty(e.r.l))) THEN "void" ELSE "ERR")
       ELSE IF x \in {"ptr", "sptr"} THEN
            (IF e.op = "=" /\ (x = y \/ (y = "void" /\ e.r.k = "asg" /\ Ty(e.r.l) = x)) THEN "void"
             ELSE IF e.op \in {"+=", "-="} /\ Numy(y) THEN "void" ELSE "ERR")
       ELSE "ERR"
    [] e.k = "fun" -> "fn"
    [] OTHER -> "ERR"

----------------------------------------------------------------------------
(* Concrete syntax with the fewest parentheses the C grammar needs.          *)
OpPrec(op) == CASE op = "||" -> 3 [] op = "&&" -> 4 [] op = "|" -> 5 [] op = "^" -> 6 [] op = "&" -> 7
                [] op \in {"==", "!="} -> 8 [] op \in {"<", ">", "<=", ">="} -> 9
                [] op \in {"<<", ">>"} -> 10 [] op \in {"+", "-"} -> 11 [] op \in {"*", "/", "%"} -> 12
Prec(e) == CASE e.k = "asg" -> 2 [] e.k = "bin" -> OpPrec(e.op) [] e.k \in {"pre", "cast", "szt", "sze"} -> 13
             [] e.k \in {"post", "idx", "fld", "arw", "call"} -> 14 [] OTHER -> 15
RECURSIVE Tok(_), TokArgs(_)
Wrap(e, lim) == IF Prec(e) < lim THEN <<"(">> \o Tok(e) \o <<")">> ELSE Tok(e)
TypeTok(t) == CASE t = "intp" -> <<"int", "*">> [] t = "Sp" -> <<"S", "*">> [] t = "voidp" -> <<"void", "*">>
                [] OTHER -> <<t>>
TokArgs(as) == IF as = <<>> THEN <<>> ELSE IF Len(as) = 1 THEN Tok(as[1]) ELSE Tok(as[1]) \o <<",">> \o TokArgs(Tail(as))
Tok(e) ==
  CASE e.k = "num" -> <<ToString(e.n)>>
    [] e.k \in {"var", "fun"} -> <<e.x>>
    [] e.k = "par" -> <<"(">> \o Tok(e.e) \o <<")">>
    [] e.k = "asg" -> Wrap(e.l, 13) \o <<e.op>> \o Wrap(e.r, 2)
    [] e.k = "bin" -> Wrap(e.l, OpPrec(e.op)) \o <<e.op>> \o Wrap(e.r, OpPrec(e.op) + 1)
    [] e.k = "pre" -> <<e.op>> \o Wrap(e.e, 13)
    [] e.k = "post" -> Wrap(e.e, 14) \o <<e.op>>
    [] e.k = "idx" -> Wrap(e.a, 14) \o <<"[">> \o Tok(e.i) \o <<"]">>
    [] e.k = "fld" -> Wrap(e.e, 14) \o <<".", e.f>>
    [] e.k = "arw" -> Wrap(e.e, 14) \o <<"->", e.f>>
    [] e.k = "call" -> Wrap(e.f, 14) \o <<"(">> \o TokArgs(e.args) \o <<")">>
    [] e.k = "cast" -> <<"(">> \o TypeTok(e.t) \o <<")">> \o Wrap(e.e, 13)
    [] e.k = "szt" -> <<"sizeof", "(">> \o TypeTok(e.t) \o <<")">>
    [] e.k = "sze" -> <<"sizeof", "(">> \o Tok(e.e) \o <<")">>

----------------------------------------------------------------------------
(* Sequencing discipline: the set of cells an expression may read / write is
   approximated by variable groups; unsequenced conflicts are excluded.      *)
RECURSIVE HasEff(_), Reads(_)
HasEff(e) ==
  CASE e.k \in {"num", "var", "fun", "szt", "sze"} -> FALSE
    [] e.k \in {"par", "cast", "fld", "arw"} -> HasEff(e.e)
    [] e.k = "pre" -> e.op \in {"++", "--"} \/ HasEff(e.e)
    [] e.k \in {"post", "asg"} -> TRUE
    [] e.k = "bin" -> HasEff(e.l) \/ HasEff(e.r)
    [] e.k = "idx" -> HasEff(e.a) \/ HasEff(e.i)
    [] e.k = "call" -> (e.f.k = "fun" /\ e.f.x = "tick") \/ \E i \in 1..Len(e.args) : HasEff(e.args[i])
Reads(e) == TRUE
RECURSIVE SeqOK(_), Const(_)
Const(e) == CASE e.k \in {"num", "fun", "szt", "sze"} -> TRUE
              [] e.k \in {"par", "cast"} -> Const(e.e)
              [] e.k = "pre" -> e.op \in {"-", "~", "!"} /\ Const(e.e)
              [] e.k = "bin" -> Const(e.l) /\ Const(e.r)
              [] OTHER -> FALSE
(* variables whose own cell the expression reads as an rvalue / modifies *)
RECURSIVE Simple(_)
\* an operand that touches only one named scalar cell
Simple(e) == e.k = "var" /\ e.x \in {"a", "b", "c", "d", "u"}
RECURSIVE ScalarRW(_)
\* set of names of scalars touched, or {"*"} when unknown memory is touched
ScalarRW(e) ==
  CASE e.k \in {"num", "fun", "szt", "sze"} -> {}
    [] e.k = "var" -> {e.x}
    [] e.k \in {"par", "cast"} -> ScalarRW(e.e)
    [] e.k \in {"pre", "post"} -> IF e.op \in {"*"} THEN {"*"} \cup ScalarRW(e.e) ELSE ScalarRW(e.e)
    [] e.k = "fld" -> ScalarRW(e.e)
    [] e.k = "arw" -> {"*"} \cup ScalarRW(e.e)
    [] e.k \in {"bin", "asg"} -> ScalarRW(e.l) \cup ScalarRW(e.r)
    [] e.k = "idx" -> {"*"} \cup ScalarRW(e.a) \cup ScalarRW(e.i)
    [] e.k = "call" -> (IF e.f.k = "fun" THEN (IF e.f.x = "tick" THEN {"log"} ELSE IF e.f.x \in {"getp", "getst"} THEN {"*"} ELSE {}) ELSE ScalarRW(e.f))
                       \cup UNION {ScalarRW(e.args[i]) : i \in 1..Len(e.args)}
Disjoint(e, f) ==
  LET x == ScalarRW(e) y == ScalarRW(f) IN
  (~HasEff(e) /\ ~HasEff(f)) \/ (x \cap y = {} /\ ("*" \notin x \/ y = {}) /\ ("*" \notin y \/ x = {}))
\* strict form for assignment targets etc.
SeqOK(e) ==
  CASE e.k \in {"num", "var", "fun", "szt"} -> TRUE
    [] e.k = "sze" -> ~HasEff(e.e) /\ SeqOK(e.e)
    [] e.k \in {"par", "cast", "fld", "arw", "pre", "post"} ->
         SeqOK(e.e) /\ (e.k \in {"pre", "post"} /\ e.op \in {"++", "--"} => ~HasEff(e.e))
    [] e.k = "bin" -> SeqOK(e.l) /\ SeqOK(e.r) /\ (e.op \in {"&&", "||"} \/ Disjoint(e.l, e.r))
    [] e.k = "idx" -> SeqOK(e.a) /\ SeqOK(e.i) /\ Disjoint(e.a, e.i)
    [] e.k = "asg" -> SeqOK(e.l) /\ SeqOK(e.r) /\ ~HasEff(e.l) /\ (HasEff(e.r) => Disjoint(e.l, e.r))
    [] e.k = "call" -> (\A i \in 1..Len(e.args) : SeqOK(e.args[i])) /\ SeqOK(e.f) /\ ~HasEff(e.f)
                       /\ \A i, j \in 1..Len(e.args) : i # j => Disjoint(e.args[i], e.args[j])

----------------------------------------------------------------------------
(* Evaluation.  Result [ok, v, m, log]; ok=FALSE marks undefined behaviour or
   values outside the window the model represents.                           *)
LO == -32768
HI == 32767
InWin(v) == v >= LO /\ v <= HI
B2I(x) == IF x THEN 1 ELSE 0
RECURSIVE P2(_), BitOp(_, _, _, _)
P2(n) == IF n = 0 THEN 1 ELSE 2 * P2(n - 1)
U16(v) == IF v < 0 THEN v + 65536 ELSE v
S16(v) == IF v > 32767 THEN v - 65536 ELSE v
BitOp(op, x, y, n) ==
  IF n = 0 THEN 0 ELSE
  LET bx == x % 2 by == y % 2
      bb == CASE op = "&" -> bx * by [] op = "|" -> B2I(bx + by > 0) [] op = "^" -> (bx + by) % 2
  IN bb + 2 * BitOp(op, x \div 2, y \div 2, n - 1)
Bits(op, x, y) == S16(BitOp(op, U16(x), U16(y), 16))
Abs(x) == IF x < 0 THEN -x ELSE x
CDiv(x, y) == LET r == Abs(x) \div Abs(y) IN IF (x < 0) = (y < 0) THEN r ELSE -r
CMod(x, y) == x - y * CDiv(x, y)
Scale(t) == CASE t \in {"sptr", "sarr"} -> S_SIZE [] OTHER -> 1
Trunc(t, v) == CASE t = "uint8_t" -> v % 256
                 [] t = "uint16_t" -> v % 65536
                 [] t = "int8_t" -> LET w == v % 256 IN IF w > 127 THEN w - 256 ELSE w
                 [] t = "int16_t" -> LET w == v % 65536 IN IF w > 32767 THEN w - 65536 ELSE w
                 [] OTHER -> v
SizeOf(t) == CASE t \in {"int", "int32_t"} -> 4 [] t \in {"uint8_t", "int8_t", "bool"} -> 1 [] t \in {"uint16_t", "int16_t"} -> 2
               [] t \in PtrTypes \cup {"intp", "Sp", "voidp", "size_t", "ptrdiff_t"} -> 8
               [] t = "S" -> 24 [] t = "sarr" -> 48
               [] OTHER -> 0
R(v, m, lg) == [ok |-> InWin(v), v |-> v, m |-> m, log |-> lg]
Bad == [ok |-> FALSE, v |-> 0, m |-> <<>>, log |-> <<>>]
\* the arithmetic type after C's promotions is int for everything modelled
\* here except size_t, which only occurs with small non-negative operands
BinVal(op, x, y) ==
  CASE op = "+" -> x + y [] op = "-" -> x - y [] op = "*" -> x * y
    [] op = "/" -> CDiv(x, y) [] op = "%" -> CMod(x, y)
    [] op \in {"&", "|", "^"} -> Bits(op, x, y)
    [] op = "<<" -> x * P2(y) [] op = ">>" -> x \div P2(y)
    [] op = "==" -> B2I(x = y) [] op = "!=" -> B2I(x # y) [] op = "<" -> B2I(x < y)
    [] op = ">" -> B2I(x > y) [] op = "<=" -> B2I(x <= y) [] op = ">=" -> B2I(x >= y)
BinDef(op, x, y) ==
  /\ InWin(x) /\ InWin(y)
  /\ op \in {"/", "%"} => y # 0
  /\ op \in {"<<", ">>"} => (x >= 0 /\ y >= 0 /\ y <= 10)
  /\ op = "*" => (Abs(x) <= 1000 /\ Abs(y) <= 1000)
\* which addresses may be dereferenced as int / pointer cells
RECURSIVE Unpar(_)
Unpar(e) == IF e.k = "par" THEN Unpar(e.e) ELSE e
Kind(ad) == CASE ad \in {1,2,3,4,5,6,7,8,12,13,14,15,18,19,20,21,23,24,25,26} -> "int"
              [] ad \in {9, 10} -> "ptr" [] ad = 11 -> "pp" [] ad \in {16, 17, 22, 27, 28} -> "sptr"
              [] ad = 29 -> "uint8_t" [] ad = 30 -> "vptr" [] ad = 31 -> "fnp" [] ad = 32 -> "spp" [] OTHER -> "none"
SStart(ad) == ad \in {12, 18, 23}
\* pointer values the model represents: inside the same object
PtrOK(t, base, v) ==
  CASE t \in {"ptr", "arr"} ->
         \E ob \in {5..8, 14..15, 20..21, 25..26, {base}} : {base, v} \subseteq ob
    [] t \in {"sptr", "sarr"} -> v = base \/ {v, base} \subseteq {18, 23}
    [] OTHER -> v = base
RECURSIVE Ev(_, _, _), Lv(_, _, _)
LvBad == [ok |-> FALSE, ad |-> 0, m |-> <<>>, log |-> <<>>]
LvR(ad, m, lg) == [ok |-> ad >= 1 /\ ad <= NCells, ad |-> ad, m |-> m, log |-> lg]
\* address of an lvalue (also used for arrays and structs)
Lv(e, m, lg) ==
  CASE e.k = "par" -> Lv(e.e, m, lg)
    [] e.k = "var" -> LvR(Vars[e.x].addr, m, lg)
    [] e.k = "pre" -> LET r == Ev(e.e, m, lg) IN IF r.ok THEN LvR(r.v, r.m, r.log) ELSE LvBad
    [] e.k = "idx" ->
         LET x == Ev(e.a, m, lg) IN IF ~x.ok THEN LvBad ELSE
         LET y == Ev(e.i, x.m, x.log) IN IF ~y.ok THEN LvBad ELSE
         LET v == x.v + y.v * Scale(Ty(e.a)) IN
         IF PtrOK(Ty(e.a), x.v, v) THEN LvR(v, y.m, y.log) ELSE LvBad
    [] e.k = "fld" -> LET r == Lv(e.e, m, lg) IN IF r.ok THEN LvR(r.ad + FieldOff[e.f], r.m, r.log) ELSE LvBad
    [] e.k = "arw" -> LET r == Ev(e.e, m, lg) IN IF r.ok /\ SStart(r.v) THEN LvR(r.v + FieldOff[e.f], r.m, r.log) ELSE LvBad
    [] OTHER -> LvBad
Load(t, l) == \* rvalue of an lvalue of type t at l.ad
  IF ~l.ok THEN Bad
  ELSE IF t \in ArrTypes THEN R(l.ad, l.m, l.log)
  ELSE IF t = "S" THEN (IF SStart(l.ad) THEN R(l.ad, l.m, l.log) ELSE Bad)
  ELSE IF t = "fn" THEN R(0, l.m, l.log)
  ELSE IF Kind(l.ad) = t THEN R(l.m[l.ad], l.m, l.log) ELSE Bad
Store(t, l, v) ==
  IF ~l.ok \/ Kind(l.ad) # t \/ ~InWin(v) THEN Bad
  ELSE LET w == Trunc(t, v) IN R(w, [l.m EXCEPT ![l.ad] = w], l.log)
AddPtr(t, base, off, m, lg) == LET v == base + off * Scale(t) IN IF PtrOK(t, base, v) THEN R(v, m, lg) ELSE Bad
SameObj(x, y) == (x \in 5..8 /\ y \in 5..8) \/ (x = y) \/ (x \in {18, 23} /\ y \in {18, 23})
Ev(e, m, lg) ==
  CASE e.k = "num" -> R(e.n, m, lg)
    [] e.k = "par" -> Ev(e.e, m, lg)
    [] e.k = "fun" -> R(0, m, lg)
    [] e.k \in {"var", "idx", "fld", "arw"} -> Load(Ty(e), Lv(e, m, lg))
    [] e.k = "szt" -> R(SizeOf(e.t), m, lg)
    [] e.k = "sze" -> LET t == Ty(e.e) u == Unpar(e.e) IN
         R(IF t = "arr" /\ u.k \in {"fld", "arw"} THEN 8
           ELSE IF t = "arr" /\ u.k = "var" THEN 16
           ELSE IF t = "arr" \/ (t = "sarr" /\ u.k # "var") THEN 8
           ELSE SizeOf(IF t \in SInt \cup UInt /\ t \notin {"size_t", "ptrdiff_t"} /\ u.k \in {"bin"} THEN "int"
                       ELSE IF u.k = "pre" /\ u.op \in {"-", "~"} /\ t # "size_t" /\ t # "ptrdiff_t" THEN "int" ELSE t), m, lg)
    [] e.k = "cast" ->
         LET r == Ev(e.e, m, lg) IN IF ~r.ok THEN Bad ELSE
         IF e.t \in CastTypes THEN R(Trunc(e.t, r.v), r.m, r.log)
         ELSE R(r.v, r.m, r.log)
    [] e.k = "pre" ->
         (CASE e.op = "*" -> Load(Ty(e), Lv(e, m, lg))
            [] e.op = "&" -> LET l == Lv(e.e, m, lg) IN IF l.ok THEN R(l.ad, l.m, l.log) ELSE Bad
            [] e.op \in {"++", "--"} ->
                 LET l == Lv(e.e, m, lg) t == Ty(e.e) IN IF ~l.ok THEN Bad ELSE
                 IF Kind(l.ad) # t THEN Bad ELSE
                 LET dlt == IF e.op = "++" THEN 1 ELSE -1 IN
                 IF t \in {"ptr", "sptr"} /\ ~PtrOK(t, l.m[l.ad], l.m[l.ad] + dlt * Scale(t)) THEN Bad
                 ELSE Store(t, l, l.m[l.ad] + dlt * Scale(t))
            [] OTHER ->
                 LET r == Ev(e.e, m, lg) IN IF ~r.ok THEN Bad ELSE
                 IF Ty(e.e) = "size_t" /\ e.op # "!" THEN Bad ELSE
                 (CASE e.op = "-" -> R(-r.v, r.m, r.log) [] e.op = "~" -> R(-r.v - 1, r.m, r.log)
                    [] e.op = "!" -> R(B2I(r.v = 0), r.m, r.log)))
    [] e.k = "post" ->
         LET l == Lv(e.e, m, lg) t == Ty(e.e) IN IF ~l.ok THEN Bad ELSE
         IF Kind(l.ad) # t THEN Bad ELSE
         LET dlt == IF e.op = "++" THEN 1 ELSE -1 old == l.m[l.ad] IN
         IF t \in {"ptr", "sptr"} /\ ~PtrOK(t, old, old + dlt * Scale(t)) THEN Bad
         ELSE LET st == Store(t, l, old + dlt * Scale(t)) IN IF st.ok THEN R(old, st.m, st.log) ELSE Bad
    [] e.k = "call" ->
         LET r1 == IF Len(e.args) >= 1 THEN Ev(e.args[1], m, lg) ELSE R(0, m, lg) IN
         IF ~r1.ok THEN Bad ELSE
         LET r2 == IF Len(e.args) >= 2 THEN Ev(e.args[2], r1.m, r1.log) ELSE R(0, r1.m, r1.log) IN
         IF ~r2.ok THEN Bad ELSE
         IF e.f.k # "fun" THEN (IF Ev(e.f, r2.m, r2.log).ok THEN R(r1.v + 2 * r2.v, r2.m, r2.log) ELSE Bad)
         ELSE (CASE e.f.x = "add" -> R(r1.v + 2 * r2.v, r2.m, r2.log)
                 [] e.f.x = "neg" -> R(-r1.v, r2.m, r2.log)
                 [] e.f.x = "tick" -> [ok |-> InWin(r1.v), v |-> r1.v, m |-> r2.m, log |-> Append(r2.log, r1.v)]
                 [] e.f.x = "getp" -> (IF r1.v \in 0..3 THEN R(5 + r1.v, r2.m, r2.log) ELSE Bad)
                 [] e.f.x = "getst" -> (IF r1.v \in 0..1 THEN R(18 + 5 * r1.v, r2.m, r2.log) ELSE Bad))
    [] e.k = "bin" ->
         LET x == Ev(e.l, m, lg) IN IF ~x.ok THEN Bad ELSE
         IF e.op = "&&" THEN (IF x.v = 0 THEN R(0, x.m, x.log)
                              ELSE LET y == Ev(e.r, x.m, x.log) IN IF y.ok THEN R(B2I(y.v # 0), y.m, y.log) ELSE Bad)
         ELSE IF e.op = "||" THEN (IF x.v # 0 THEN R(1, x.m, x.log)
                              ELSE LET y == Ev(e.r, x.m, x.log) IN IF y.ok THEN R(B2I(y.v # 0), y.m, y.log) ELSE Bad)
         ELSE
         LET y == Ev(e.r, x.m, x.log) IN IF ~y.ok THEN Bad ELSE
         LET tx == Ty(e.l) ty == Ty(e.r) IN
         IF tx \in PtrTypes \cup ArrTypes /\ ty \in PtrTypes \cup ArrTypes THEN
             (IF e.op \in {"==", "!="} THEN R(BinVal(e.op, x.v, y.v), y.m, y.log)
              ELSE IF tx \in {"ptr", "sptr"} /\ SameObj(x.v, y.v) THEN
                   (IF e.op = "-" THEN R((x.v - y.v) \div Scale(tx), y.m, y.log) ELSE R(BinVal(e.op, x.v, y.v), y.m, y.log))
              ELSE Bad)
         ELSE IF tx \in PtrTypes \cup ArrTypes THEN
             (IF tx \in {"ptr", "sptr", "arr", "sarr"} THEN AddPtr(tx, x.v, IF e.op = "+" THEN y.v ELSE -y.v, y.m, y.log) ELSE Bad)
         ELSE IF ty \in PtrTypes \cup ArrTypes THEN
             (IF ty \in {"ptr", "sptr", "arr", "sarr"} THEN AddPtr(ty, y.v, x.v, y.m, y.log) ELSE Bad)
         ELSE IF ("size_t" \in {tx, ty}) /\ ((e.op = "-" /\ y.v > x.v) \/ x.v < 0 \/ y.v < 0) THEN Bad
         ELSE IF BinDef(e.op, x.v, y.v) THEN R(BinVal(e.op, x.v, y.v), y.m, y.log) ELSE Bad
    [] e.k = "asg" ->
         LET l == Lv(e.l, m, lg) t == Ty(e.l) IN IF ~l.ok THEN Bad ELSE
         LET y == Ev(e.r, l.m, l.log) IN IF ~y.ok THEN Bad ELSE
         LET l2 == [l EXCEPT !.m = y.m, !.log = y.log]
             op == SubSeq(e.op, 1, Len(e.op) - 1) IN
         IF Kind(l.ad) # t THEN Bad
         ELSE IF e.op = "=" THEN Store(t, l2, y.v)
         ELSE LET old == y.m[l.ad] IN
              IF t \in {"ptr", "sptr"} THEN
                 LET v == old + (IF op = "+" THEN y.v ELSE -y.v) * Scale(t) IN
                 IF PtrOK(t, old, v) THEN Store(t, l2, v) ELSE Bad
              ELSE IF BinDef(op, old, y.v) THEN Store(t, l2, BinVal(op, old, y.v)) ELSE Bad
\* overall result of an expression statement in the initial world
Run(e) == Ev(e, Mem0, <<>>)
Usable(e) == Ty(e) # "ERR" /\ SeqOK(e) /\ Run(e).ok
=============================================================================
