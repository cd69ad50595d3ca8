------------------------------ MODULE TextMC ------------------------------
(* Laws of the text functions over all short texts, and all such calls for
   replay.                                                                  *)
EXTENDS Text, Json
CONSTANTS K, L, Emit
Texts(S, n) == UNION { [1..m -> S] : m \in 0..n }
P(o, a) == [op |-> o, a |-> a]
Calls == CASE K = "str" ->
                  { P(o, <<B(x), B(y)>>) : o \in {"casecmp", "starts", "starts_i", "ends", "eq"}, x \in Texts({97, 65, 98}, L), y \in Texts({97, 65, 98}, 2) }
                  \cup { P("split", <<B(x), B(y), N(n)>>) : x \in Texts({44, 59}, 2) \ {<<>>}, y \in Texts({97, 44, 59}, L), n \in {0, 1, 2, 9} }
                  \cup { P("trim", <<B(x)>>) : x \in Texts({32, 97, 11, 10}, L + 1) }
                  \cup { P("rtrim", <<B(x), B(y)>>) : x \in Texts({32, 97}, L + 1), y \in {<<>>, <<32>>, <<97, 32>>} }
           [] K = "enc" -> { P(o, <<B(x), N(n)>>) : o \in {"hex", "url"}, x \in Texts({0, 97, 255}, L), n \in {0, 1, 2, 3, 4, 5, 6, 50} }
           [] K = "url" -> { P("parse", <<B(x)>>) : x \in { <<97, 58, 47, 47>> \o t : t \in Texts({98, 58, 47}, L + 1) } \cup Texts({97, 58, 47}, L + 1) }
           [] K = "utf" -> { P("get", <<B(x)>>) : x \in Texts({65, 128, 191, 194, 224, 237, 240, 244, 247, 255}, L) \ {<<>>} }
                  \cup { P(o, <<B(x)>>) : o \in {"count", "full"}, x \in Texts({65, 128, 194, 224, 240}, L) }
                  \cup { P("utfnlen", <<B(x), N(n)>>) : x \in Texts({65, 128, 194, 224, 240}, L), n \in {0, 1, 2, 3} }
           [] OTHER -> {}
\* tokenizers: every text and every pair of operations
TokOps == { P(o, <<>>) : o \in {"peek", "get", "more", "spaces", "hspaces", "pos"} } \cup
          { P(o, <<N(n)>>) : o \in {"id", "num", "tail"}, n \in {1, 2, 9} } \cup
          { P("skip", <<N(n)>>) : n \in {97, 255} } \cup
          { P(o, <<B(<<97, 46>>)>>) : o \in {"skipset", "readset", "lit", "follows", "until"} } \cup
          { P("readuntil", <<N(46), N(n)>>) : n \in {1, 2, 9} }
VARIABLE h
Init == IF K = "tok" THEN \E x \in Texts({97, 49, 46, 10, 255}, L) : h = <<P("open", <<N(0), B(x)>>)>> ELSE \E p \in Calls : h = <<p>>
Next == K = "tok" /\ Len(h) < 3 /\ \E p \in TokOps : h' = Append(h, p)
Spec == Init /\ [][Next]_h
RECURSIVE Outs(_, _)
Outs(s, ps) == IF ps = <<>> THEN <<>> ELSE LET r == Do(K, s, ps[1]) IN <<r.o>> \o Outs(r.s, Tail(ps))
R == Outs(Start(K), h)
RECURSIVE Join(_, _)
Join(sep, ss) == IF Len(ss) = 1 THEN ss[1] ELSE ss[1] \o sep \o Join(sep, Tail(ss))
op == h[1].op
A == h[1].a
Law == CASE op = "split" /\ A[3].n > 0 -> LET s == Split(A[1].b, A[2].b, A[3].n) IN
                               Join(A[1].b, s) = A[2].b /\ Len(s) <= A[3].n /\ (Len(s) < A[3].n => \A k \in 1..Len(s) : Find(s[k], A[1].b) < 0)
         [] op = "ends" -> (R[1] = <<N(1)>>) <=> \E k \in 0..Len(A[1].b) : Rest(A[1].b, k) = A[2].b
         [] op = "hex" -> HexBack(HexAll(A[1].b)) = A[1].b
         [] op = "url" -> UrlBack(UrlAll(A[1].b)) = A[1].b
         [] op = "get" /\ R[1][2].n # 65533 -> Enc8(R[1][2].n) = Cut(A[1].b, R[1][1].n)
         [] op = "parse" /\ R[1] # <<Null>> -> LET q == R[1] IN
               A[1].b \in { q[1].b \o <<58, 47, 47>> \o q[2].b \o c \o q[3].b \o e : c \in {<<>>, <<58>>}, e \in {<<>>, q[4].b} }
         [] OTHER -> TRUE
\* every code point that can be encoded is decoded as itself
Utf8Law == K = "utf" => \A r \in {0, 1, 127, 128, 2047, 2048, 65532, 65533, 65535, 65536, 1114111} : Rune1(Enc8(r)) = <<r, Len(Enc8(r))>>
\* a tokenizer never loses or invents bytes
TokLaw == K = "tok" => LET RECURSIVE Fin(_, _)
                           Fin(s, ps) == IF ps = <<>> THEN s ELSE Fin(Do(K, s, ps[1]).s, Tail(ps))
                       IN Ends(A[2].b, Fin(Start(K), h).d)
EmitRes == Emit /\ (K = "tok" => Len(h) = 3) => PrintT("RES " \o ToJson([ps |-> h, o |-> R]))
=============================================================================
