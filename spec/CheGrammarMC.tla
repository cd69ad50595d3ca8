--------------------------- MODULE CheGrammarMC ---------------------------
(* All token strings up to length N as the body of a function.             *)
EXTENDS CheGrammar, Json
CONSTANTS N, Emit
Alpha == {"id", "num", "ty", "(", ")", "{", "}", ";", "=", ",", "if", "else", "return", "*"}
VARIABLE s
Init == s = <<>>
Next == Len(s) < N /\ \E c \in Alpha : s' = Append(s, c)
Spec == Init /\ [][Next]_s
M == <<"ty", "id", "(", ")", "{">> \o s \o <<"}">>
G == IsModule(M)
\* Laws: brackets match in a program, and a program cut short is not one.
GBalanced == G => Balanced(M)
GCut == G => \A k \in 1..(Len(M) - 1) : IsModule(SubSeq(M, 1, k)) =>
                \* only whole elements remain
                Balanced(SubSeq(M, 1, k)) /\ M[k] \in {"}", ";"}
\* Statements compose.
GCompose == (Len(s) > 0 /\ G) => IsModule(<<"ty", "id", "(", ")", "{">> \o s \o <<"return", "num", ";", "}">>)
EmitCase == Emit => PrintT("CASE " \o ToJson([t |-> s, g |-> G]))
=============================================================================
