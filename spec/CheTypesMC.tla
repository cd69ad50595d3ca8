---------------------------- MODULE CheTypesMC ----------------------------
(* Laws of the typing rules over all pairs and triples of operand types.    *)
EXTENDS CheTypes
Bases == {"int", "int8_t", "int64_t", "uint8_t", "uint32_t", "size_t", "float", "double", "char", "bool", "number", "st"}
Types == { T(b) : b \in Bases } \cup { [ops |-> <<P>>, b |-> "int"], [ops |-> <<P>>, b |-> "st"], [ops |-> <<A>>, b |-> "int"], Unk }
Arithm == {"+", "-", "*"}
Apply(op, a, b) == IF op = "*" THEN Arith(a, b) ELSE IF op = "<" THEN Cmp(a, b) ELSE IF op = "&&" THEN Logic(a, b) ELSE PlusMinus(op, a, b)
VARIABLES a, b, c
Init == a \in Types /\ b \in Types /\ c \in Types
Next == FALSE /\ UNCHANGED <<a, b, c>>
Spec == Init /\ [][Next]_<<a, b, c>>
Ok(t) == ~IsErr(t)
\* commutative operators admit operands in either order and give the same type up to width
Commutes == \A op \in {"+", "*", "<", "&&"} : Ok(Apply(op, a, b)) <=> Ok(Apply(op, b, a))
SameClass == \A op \in {"+", "*"} : (Ok(Apply(op, a, b)) /\ Class(a) # "unk" /\ Class(b) # "unk" /\ Pair(Class(a), Class(b), {<<"sint", "uint">>}) = FALSE)
                => Class(Apply(op, a, b)) = Class(Apply(op, b, a))
\* a sum or product of numbers of one class stays in the class and is as wide as its widest operand
Widens == \A op \in Arithm : (Class(a) = Class(b) /\ Class(a) \in Num) =>
            /\ Class(Apply(op, a, b)) = Class(a)
            /\ Width[Apply(op, a, b).b] >= Width[a.b] /\ Width[Apply(op, a, b).b] >= Width[b.b]
\* what may not be mixed
NoMix == /\ Pair(Class(a), Class(b), {<<"sint", "uint">>, <<"sint", "flt">>, <<"uint", "flt">>}) => ~Ok(Apply("+", a, b)) /\ ~Ok(Apply("<", a, b))
         /\ (Class(a) \in {"bool", "none"} /\ Class(b) # "unk") => \A op \in Arithm : ~Ok(Apply(op, a, b))
         /\ (Class(a) \in {"char", "flt", "const", "arr", "none"}) => ~Ok(Logic(a, b))
\* an operation on an admissible sum is judged by the sum's class
Nested == (Ok(PlusMinus("+", a, b)) /\ Class(a) \in Num /\ Class(b) \in Num) =>
            (Ok(PlusMinus("+", PlusMinus("+", a, b), c)) <=> Ok(PlusMinus("+", a, c)))
=============================================================================
