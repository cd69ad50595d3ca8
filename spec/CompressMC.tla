----------------------------- MODULE CompressMC -----------------------------
(* LZW: what is encoded decodes to itself, for every alphabet, dictionary
   limit and word limit, over all short texts; Huffman: cost is optimal and
   canonical codes are prefix-free and decode.                                *)
EXTENDS Compress, FiniteSetsExt
CONSTANTS Mode, A, L, Room, Lim
VARIABLE x
Texts(n, l) == UNION { [1..k -> 0..(n - 1)] : k \in 0..l }
Init == CASE Mode = "lzw" -> x \in Texts(A, L)
          [] Mode = "run" -> x \in { [i \in 1..k |-> IF j # 0 /\ i % j = 0 THEN A - 1 ELSE 0] : k \in 0..L, j \in 0..3 }
          [] Mode = "huff" -> x \in Texts(A, L)
          [] Mode = "canon" -> x \in { c \in [1..L -> 0..A] : Valid(c) }
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
RoundTrip == Mode \in {"lzw", "run"} => Dec(Enc(x, A, A + 2 + Room, Lim), A, A + 2 + Room, Lim) = [ok |-> TRUE, x |-> x]
RunLaw == Mode = "run" /\ (\A i \in 1..Len(x) : x[i] = 0) => RunBits(Len(x), A, A + 2 + Room, Lim) = Bits(Enc(x, A, A + 2 + Room, Lim))
\* every code fits its width
Fits == Mode \in {"lzw", "run"} => \A i \in 1..Len(Enc(x, A, A + 2 + Room, Lim)) : LET c == Enc(x, A, A + 2 + Room, Lim)[i] IN c.c < Pow(2, c.w)
\* no prefix code is shorter: lengths obeying Kraft's inequality cost at least as much
Kraft(ls) == LET T == { i \in DOMAIN ls : TRUE } IN FoldSet(LAMBDA i, t : t + Pow(2, 6 - ls[i]), 0, T) <= Pow(2, 6)
Price(ls, w) == FoldSet(LAMBDA i, t : t + ls[i] * w[i], 0, DOMAIN w)
Optimal == Mode = "huff" /\ x # <<>> => LET w == Weights(x) IN
             LET S == { ls \in [1..Len(w) -> 1..5] : Kraft(ls) } IN
             (\A ls \in S : Size(x) <= Price(ls, w)) /\ (\E ls \in S : Size(x) = Price(ls, w))
Pre(a, b) == Len(a) <= Len(b) /\ SubSeq(b, 1, Len(a)) = a
PrefixFree == Mode = "canon" => LET cs == Codes(x) IN \A i, j \in 1..Len(cs) : i # j => ~Pre(cs[i], cs[j])
Decodes == Mode = "canon" => LET cs == Codes(x) vals == [i \in 1..Len(cs) |-> i] IN
             \A i, j \in 1..Len(cs) : ReadFrom(cs, vals, Encoded(x, vals, <<i, j, i>>), 1, <<>>) = [ok |-> TRUE, x |-> <<i, j, i>>]
=============================================================================
