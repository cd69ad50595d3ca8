----------------------------- MODULE StreamsMC -----------------------------
(* Laws of the streams over all short histories of one kind K, and those
   histories for replay. x is the contents the history is about.            *)
EXTENDS Streams, Json
CONSTANTS K, Depth
VARIABLES s, hist
P(o, a) == [op |-> o, a |-> a]
Opening == CASE K \in {"rs", "rf"} -> { P("open", <<B(b)>>) : b \in {<<>>, <<255>>, <<0, 10, 255, 128>>} }
             [] K \in {"ws"} -> { P("open", <<N(n)>>) : n \in {0, 1, 3} }
             [] K = "bw" -> { P("open", <<N(o), N(n)>>) : o \in {0, 1}, n \in {0, 1, 2} }
             [] K = "lr" -> { P("open", <<B(b)>>) : b \in UNION { [1..n -> {10, 65, 255}] : n \in 0..3 } }
             [] OTHER -> { P("tell", <<>>) }
Ops == CASE K = "mem" -> { P("putc", <<N(n)>>) : n \in {-1, 0, 255} } \cup { P(o, <<>>) : o \in {"getc", "rewind", "reset", "tell"} }
                          \cup { P("write", <<B(b)>>) : b \in {<<>>, <<1, 255, 3>>} } \cup { P("read", <<N(n)>>) : n \in {0, 2} }
         [] K \in {"rs", "rf"} -> { P("read", <<N(n)>>) : n \in {1, 2, 5} } \cup { P("skip", <<N(n)>>) : n \in {0, 2} }
         [] K = "ws" -> { P("write", <<B(b)>>) : b \in {<<1>>, <<255, 0>>} } \cup {P("byte", <<N(200)>>)}
         [] K = "bw" -> { P("write1", <<N(n)>>) : n \in {0, 1, 7} } \cup { P("write", <<B(b)>>) : b \in {<<>>, <<1, 0, 1>>, <<0, 0, 1, 1, 0, 1, 0>>} }
         [] K = "lr" -> {P("read", <<>>)}
         [] OTHER -> {}
Init == hist = <<>> /\ s = Start(K)
Next == /\ Len(hist) < Depth
        /\ \E p \in (IF hist = <<>> THEN Opening ELSE Ops) : s' = Do(K, s, p).s /\ hist' = Append(hist, p)
Spec == Init /\ [][Next]_<<s, hist>>
Outs == Run(K, hist)
RECURSIVE Written(_)
Written(h) == IF h = <<>> THEN <<>> ELSE
    (CASE h[1].op = "write" -> h[1].a[1].b [] h[1].op = "byte" -> <<h[1].a[1].n>> [] OTHER -> <<>>) \o Written(Tail(h))
\* a writer holds the first bytes of what it was given; short only when full
WrLaw == K = "ws" /\ hist # <<>> => s.d = Cut(Written(Tail(hist)), s.size)
\* the bytes of a bit writer, read back in the same order, are the bits written, then zeros
BitLaw == K = "bw" /\ hist # <<>> /\ ~s.err /\ Len(Pack(s.bits, s.ord)) <= s.size =>
          LET back == Unpack(Pack(s.bits, s.ord), s.ord) IN
          Cut(back, Len(s.bits)) = s.bits /\ Len(back) < Len(s.bits) + 8 /\ \A k \in (Len(s.bits) + 1)..Len(back) : back[k] = 0
MemLaw == K = "mem" => s.pos <= Len(s.d)
RECURSIVE Lines(_)
Lines(o) == IF o = <<>> THEN <<>> ELSE (IF Len(o[1]) = 2 THEN o[1][2].b ELSE <<>>) \o Lines(Tail(o))
\* the lines joined are the contents
LrLaw == K = "lr" /\ hist # <<>> => Lines(Outs) \o s = hist[1].a[1].b
\* numbers survive writing and reading
Values == {0, 1, 255, 256, 32767, 32768, 65535}
EndLaw == \A hi \in Values, lo \in Values, o \in {"4le", "4be"} :
            LET b == Enc("w" \o o, hi, lo) IN DoEr([d |-> b, pos |-> 0], P("r" \o o, <<>>)).o = <<N(1), N(hi), N(lo)>>
EmitRes == Len(hist) = Depth => PrintT("RES " \o ToJson([ps |-> hist, o |-> Outs]))
=============================================================================
