-------------------------------- MODULE OptMC --------------------------------
(* All argument lists up to length L over a small vocabulary.                 *)
EXTENDS Opt, Json
CONSTANT L
W == {<<>>, <<45>>, <<45, 98>>, <<45, 115>>, <<45, 105>>, <<45, 98, 99>>, <<45, 98, 115>>, <<45, 120>>, <<45, 45>>, <<45, 104>>, <<51>>, <<45, 51>>, <<97>>}
D == <<[t |-> 98, c |-> 98], [t |-> 115, c |-> 115], [t |-> 105, c |-> 105], [t |-> 98, c |-> 99]>>
S0(n) == [decl |-> D, nargs |-> n, cmds |-> <<>>]
VARIABLE x
Init == x \in UNION { [1..n -> W] : n \in 0..L }
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
R == Parse(S0(-1), x)
\* the rest begins with a word that is no option
RestLaw == R.st = "ok" => R.at = Len(x) + 1 \/ x[R.at] \in {<<>>, <<45>>} \/ x[R.at][1] # 45
\* what follows the first positional word changes neither the values nor where it is
TailLaw == R.st = "ok" /\ R.at <= Len(x) => \A w \in W : LET q == Parse(S0(-1), Append(x, w)) IN q = R
\* a failure stays one, whatever follows, unless it was a missing value
FailLaw == R.st = "bad" => \A w \in W : LET q == Parse(S0(-1), Append(x, w)) IN q.st = "bad" \/ x[Len(x)] \in {<<45, 115>>, <<45, 105>>}
\* an expected number of arguments is obeyed
CountLaw == \A n \in 0..2 : LET q == Parse(S0(n), x) IN q.st = "ok" => R.st = "ok" /\ Len(x) - R.at + 1 = n
EmitRes == PrintT("RES " \o ToJson([x |-> x]))
=============================================================================
