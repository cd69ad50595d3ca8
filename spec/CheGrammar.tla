---------------------------- MODULE CheGrammar ----------------------------
(* Which token sequences are programs. Tokens are strings: "id" (a name),
   "ty" (a type name), "num", "str", "chr", keywords and symbols. P*(t, i)
   recognises a phrase starting at position i and returns the position after
   it, 0 when there is none. Names are not resolved and types not checked
   here, so the grammar admits more than the compiler may accept.           *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC
At(t, i) == IF i >= 1 /\ i <= Len(t) THEN t[i] ELSE "<end>"
Eat(t, i, x) == IF i > 0 /\ At(t, i) = x THEN i + 1 ELSE 0
Word == {"id", "ty", "wstr"}
BinOp == {"+", "-", "*", "/", "%", "=", "|", "&", "^", "<", ">", "+=", "-=", "*=", "/=", "%=", "&=", "^=", "|=",
          ">>", "<<", "<=", ">=", "&&", "||", "==", "!=", "<<=", ">>="}
PreOp == {"!", "--", "++", "*", "~", "&", "-"}
Lits == {"num", "str", "chr"}
RECURSIVE Stars(_, _)
Stars(t, i) == IF At(t, i) = "*" THEN Stars(t, i + 1) ELSE i
\* [const] name with stars (types in casts, sizeof, function types)
TypeForm(t, i) == LET j == IF At(t, i) = "const" THEN i + 1 ELSE i IN IF At(t, j) \in Word THEN Stars(t, j + 1) ELSE 0
RECURSIVE Expr(_, _)
RECURSIVE ExprTail(_, _)
RECURSIVE Unary(_, _)
RECURSIVE Post(_, _)
RECURSIVE Atom(_, _)
RECURSIVE Args(_, _)
RECURSIVE Entries(_, _)
Expr(t, i) == IF i = 0 THEN 0 ELSE ExprTail(t, Unary(t, i))
ExprTail(t, i) == IF i = 0 THEN 0 ELSE IF At(t, i) \in BinOp THEN ExprTail(t, Unary(t, i + 1)) ELSE i
Unary(t, i) ==
    IF i > Len(t) THEN 0
    ELSE IF t[i] \in PreOp THEN Unary(t, i + 1)
    ELSE IF t[i] = "(" /\ At(t, i + 1) = "ty" THEN LET j == Eat(t, Stars(t, i + 2), ")") IN IF j = 0 THEN 0 ELSE Unary(t, j)
    ELSE IF t[i] = "sizeof"
         THEN IF At(t, i + 1) # "(" THEN 0
              ELSE IF At(t, i + 2) \in {"ty", "const"} THEN Eat(t, TypeForm(t, i + 2), ")") ELSE Eat(t, Expr(t, i + 2), ")")
    ELSE Post(t, Atom(t, i))
Post(t, i) ==
    IF i = 0 THEN 0
    ELSE CASE At(t, i) = "(" -> Post(t, Args(t, i + 1))
           [] At(t, i) = "[" -> Post(t, Eat(t, Expr(t, i + 1), "]"))
           [] At(t, i) \in {"++", "--"} -> Post(t, i + 1)
           [] At(t, i) \in {".", "->"} -> IF At(t, i + 1) \in Word THEN Post(t, i + 2) ELSE 0
           [] OTHER -> i
RECURSIVE ArgTail(_, _)
ArgTail(t, i) == IF i = 0 THEN 0 ELSE IF At(t, i) = "," THEN ArgTail(t, Expr(t, i + 1)) ELSE Eat(t, i, ")")
Args(t, i) == IF At(t, i) = ")" THEN i + 1 ELSE ArgTail(t, Expr(t, i))
Entry(t, i) ==
    IF At(t, i) = "." THEN IF At(t, i + 1) \in Word /\ At(t, i + 2) = "=" THEN Expr(t, i + 3) ELSE 0
    ELSE IF At(t, i) = "[" THEN LET j == Eat(t, Eat(t, Expr(t, i + 1), "]"), "=") IN Expr(t, j)
    ELSE Expr(t, i)
Entries(t, i) == IF At(t, i) = "}" THEN i + 1
                 ELSE LET j == Entry(t, i) IN
                      IF j = 0 THEN 0 ELSE IF At(t, j) = "," THEN Entries(t, j + 1) ELSE Eat(t, j, "}")
Atom(t, i) == CASE At(t, i) \in Word \cup Lits -> i + 1
                [] At(t, i) = "(" -> Eat(t, Expr(t, i + 1), ")")
                [] At(t, i) = "{" -> Entries(t, i + 1)
                [] OTHER -> 0
----------------------------------------------------------------------------
RECURSIVE Dims(_, _)
Dims(t, i) == IF i = 0 THEN 0
              ELSE IF At(t, i) # "[" THEN i
              ELSE IF At(t, i + 1) = "]" THEN Dims(t, i + 2) ELSE Dims(t, Eat(t, Expr(t, i + 1), "]"))
\* *name[..][..]
Form(t, i) == IF i = 0 THEN 0 ELSE LET j == Stars(t, i) IN IF At(t, j) \in Word THEN Dims(t, j + 1) ELSE 0
TypeName(t, i) == IF At(t, i) = "const" THEN (IF At(t, i + 1) \in Word THEN i + 2 ELSE 0)
                  ELSE IF At(t, i) \in Word THEN i + 1 ELSE 0
RECURSIVE Stmt(_, _)
RECURSIVE Stmts(_, _)
RECURSIVE CaseVals(_, _)
RECURSIVE Cases(_, _)
Body(t, i) == IF i = 0 THEN 0 ELSE Stmts(t, Eat(t, i, "{"))
Stmts(t, i) == IF i = 0 \/ i > Len(t) THEN 0 ELSE IF t[i] = "}" THEN i + 1 ELSE Stmts(t, Stmt(t, i))
Blk(t, i) == IF i = 0 THEN 0 ELSE IF At(t, i) = "{" THEN Body(t, i) ELSE Stmt(t, i)
CaseVals(t, i) == IF At(t, i) \in Word \cup Lits
                  THEN IF At(t, i + 1) = "," THEN CaseVals(t, i + 2) ELSE Eat(t, i + 1, ":") ELSE 0
Cases(t, i) == IF i = 0 THEN 0
               ELSE IF At(t, i) = "case" THEN Cases(t, Body(t, CaseVals(t, i + 1)))
               ELSE IF At(t, i) = "default" THEN Eat(t, Body(t, Eat(t, i + 1, ":")), "}") ELSE Eat(t, i, "}")
OptExpr(t, i, end) == IF i = 0 THEN 0 ELSE IF At(t, i) = end THEN i + 1 ELSE Eat(t, Expr(t, i), end)
Stmt(t, i) ==
    IF i > Len(t) THEN 0
    ELSE CASE t[i] \in {"ty", "const"} ->
               LET j == Form(t, TypeName(t, i)) IN
               IF At(t, j) = "=" /\ j > 0 THEN Eat(t, Expr(t, j + 1), ";") ELSE Eat(t, j, ";")
           [] t[i] \in {"break", "continue"} -> Eat(t, i + 1, ";")
           [] t[i] = "return" -> OptExpr(t, i + 1, ";")
           [] t[i] = "while" -> Blk(t, Eat(t, Expr(t, Eat(t, i + 1, "(")), ")"))
           [] t[i] = "if" -> LET j == Blk(t, Eat(t, Expr(t, Eat(t, i + 1, "(")), ")")) IN
                             IF j > 0 /\ At(t, j) = "else" THEN Blk(t, j + 1) ELSE j
           [] t[i] = "for" ->
               LET a == Eat(t, i + 1, "(")
                   b == IF a = 0 THEN 0
                        ELSE IF At(t, a) = "ty" THEN LET f == Form(t, a + 1) IN
                                IF At(t, f) = "=" /\ f > 0 THEN Eat(t, Expr(t, f + 1), ";") ELSE 0
                        ELSE OptExpr(t, a, ";")
               IN Blk(t, OptExpr(t, OptExpr(t, b, ";"), ")"))
           [] t[i] = "switch" ->
               LET j == IF At(t, i + 1) = "wstr" THEN i + 2 ELSE i + 1 IN
               Cases(t, Eat(t, Eat(t, Expr(t, Eat(t, j, "(")), ")"), "{"))
           [] OTHER -> Eat(t, Expr(t, i), ";")
----------------------------------------------------------------------------
\* Modules. Parameters: type form {, form} ... trailing comma and ... allowed
RECURSIVE Params(_, _)
RECURSIVE Forms(_, _)
Forms(t, i) == IF i > 0 /\ At(t, i) = "," /\ At(t, i + 1) \notin {"ty", "const", "...", ")"} THEN Forms(t, Form(t, i + 1)) ELSE i
Params(t, i) == IF i = 0 THEN 0
                ELSE IF At(t, i) = ")" THEN i + 1
                ELSE IF At(t, i) = "..." THEN Eat(t, i + 1, ")")
                ELSE IF At(t, i) \notin {"ty", "const"} THEN 0
                ELSE LET j == Forms(t, Form(t, TypeName(t, i))) IN
                     IF j = 0 THEN 0 ELSE IF At(t, j) = "," THEN Params(t, j + 1)
                     ELSE IF At(t, j) = "..." THEN Eat(t, j + 1, ")") ELSE Eat(t, j, ")")
RECURSIVE EnumTail(_, _)
EnumTail(t, i) == IF At(t, i) \notin Word THEN 0
                  ELSE LET j == IF At(t, i + 1) = "=" THEN Expr(t, i + 2) ELSE i + 1 IN
                       IF j = 0 THEN 0
                       ELSE IF At(t, j) = "," THEN IF At(t, j + 1) = "}" THEN j + 2 ELSE EnumTail(t, j + 1)
                       ELSE Eat(t, j, "}")
RECURSIVE FormsAny(_, _)
FormsAny(t, i) == IF i > 0 /\ At(t, i) = "," THEN FormsAny(t, Form(t, i + 1)) ELSE i
RECURSIVE UFields(_, _)
UFields(t, i) == IF i = 0 THEN 0 ELSE IF At(t, i) = "}" THEN i + 1 ELSE UFields(t, Eat(t, Form(t, TypeName(t, i)), ";"))
RECURSIVE Fields(_, _)
Fields(t, i) == IF i = 0 \/ i > Len(t) THEN 0
                ELSE IF t[i] = "}" THEN i + 1
                ELSE IF t[i] = "union" THEN Fields(t, Eat(t, Form(t, UFields(t, Eat(t, i + 1, "{"))), ";"))
                ELSE Fields(t, Eat(t, FormsAny(t, Form(t, TypeName(t, i))), ";"))
RECURSIVE AnonTail(_, _)
AnonTail(t, i) == IF i = 0 THEN 0
                  ELSE IF At(t, i) = "," THEN IF At(t, i + 1) = "..." THEN Eat(t, i + 2, ")") ELSE AnonTail(t, TypeForm(t, i + 1))
                  ELSE Eat(t, i, ")")
Typedef(t, i) ==
    IF At(t, i) = "{" THEN LET j == Fields(t, i + 1) IN IF j > 0 /\ At(t, j) \in Word THEN Eat(t, j + 1, ";") ELSE 0
    ELSE IF At(t, i) = "struct" THEN IF At(t, i + 1) \in Word /\ At(t, i + 2) \in Word THEN Eat(t, i + 3, ";") ELSE 0
    ELSE LET a == TypeName(t, i)
             b == IF a = 0 THEN 0 ELSE Stars(t, a)
             c == IF b > 0 /\ At(t, b) \in Word THEN b + 1 ELSE 0
             d == IF c > 0 /\ At(t, c) = "(" THEN (IF At(t, c + 1) = ")" THEN c + 2 ELSE AnonTail(t, TypeForm(t, c + 1))) ELSE c
             e == IF d > 0 /\ At(t, d) = "[" THEN (IF At(t, d + 1) = "num" THEN Eat(t, d + 2, "]") ELSE 0) ELSE d
         IN Eat(t, e, ";")
Elem(t, i0) ==
    LET i == IF At(t, i0) = "pub" THEN i0 + 1 ELSE i0 IN
    CASE At(t, i) = "enum" -> LET j == EnumTail(t, Eat(t, i + 1, "{")) IN IF j > 0 /\ At(t, j) = ";" THEN j + 1 ELSE j
      [] At(t, i) = "typedef" -> Typedef(t, i + 1)
      [] OTHER -> LET f == Form(t, TypeName(t, i)) IN
                  IF f = 0 THEN 0
                  ELSE IF At(t, f) = "(" THEN Blk(t, Params(t, f + 1))
                  ELSE IF i # i0 THEN 0 ELSE Eat(t, Expr(t, Eat(t, f, "=")), ";")
RECURSIVE Mod(_, _)
Mod(t, i) == IF i = 0 THEN FALSE ELSE IF i > Len(t) THEN TRUE ELSE Mod(t, Elem(t, i))
IsModule(t) == Mod(t, 1)
----------------------------------------------------------------------------
\* Brackets
RECURSIVE Bal(_, _, _)
Match(x) == CASE x = ")" -> "(" [] x = "]" -> "[" [] OTHER -> "{"
Bal(t, i, st) == IF i > Len(t) THEN st = <<>>
                 ELSE IF t[i] \in {"(", "[", "{"} THEN Bal(t, i + 1, Append(st, t[i]))
                 ELSE IF t[i] \in {")", "]", "}"}
                      THEN st # <<>> /\ st[Len(st)] = Match(t[i]) /\ Bal(t, i + 1, SubSeq(st, 1, Len(st) - 1))
                 ELSE Bal(t, i + 1, st)
Balanced(t) == Bal(t, 1, <<>>)
=============================================================================
