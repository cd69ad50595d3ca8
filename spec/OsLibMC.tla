------------------------------- MODULE OsLibMC -------------------------------
(* All trees built by Depth operations over a few paths.                      *)
EXTENDS OsLib
CONSTANT Depth
a == <<97>>
b == <<98>>
P == {a, b, a \o <<47>> \o b, b \o <<47, 46, 46, 47>> \o a}
Arg(x) == [b |-> x]
Op(n, x, y) == [op |-> n, a |-> <<Arg(x), Arg(y)>>]
VARIABLES t, n
Init == t = Tree0 /\ n = 0
Ops == { Op(k, x, <<>>) : k \in {"mkdir", "unlink"}, x \in P } \cup { Op("write", x, <<0, 7>>) : x \in P } \cup { Op("link", x, y) : x \in {a, b}, y \in P \cup {<<46, 46>>} }
Next == n < Depth /\ n' = n + 1 /\ \E p \in Ops : t' = DoFs(t, p).s
Spec == Init /\ [][Next]_<<t, n>>
Got(s, k, x) == DoFs(s, Op(k, x, <<>>)).o[1]
\* everything lies in a directory
Rooted == \A p \in DOMAIN t : p = <<>> \/ t[Front(p)].k = "d"
\* what was written is read, under every path that leads there, and nothing else changes
WriteRead == \A x \in P : LET w == DoFs(t, Op("write", x, <<5>>)) q == At(t, x).p IN
    IF w.o = <<N(1)>> THEN /\ Got(w.s, "read", x) = B(<<5>>) /\ Got(w.s, "size", x) = N(1)
                           /\ \A y \in P : LET r == At(w.s, y) IN r.e = "ok" => (IF r.p = q THEN Got(w.s, "exists", y) = N(1) ELSE At(t, y).e = "ok" => t[r.p] = w.s[r.p])
    ELSE w.s = t
\* unlink takes the entry away and nothing else: the file behind a link stays
UnlinkGone == \A x \in P : LET w == DoFs(t, Op("unlink", x, <<>>)) h == Here(t, x) IN
    w.o = <<N(1)>> => Here(w.s, x).e = "new" /\ w.s = Del(t, h.p) /\ t[h.p].k # "d"
\* a listing has exactly the names that can be opened through it
ListSees == \A x \in P : LET r == At(t, x) IN (r.e = "ok" /\ t[r.p].k = "d") =>
    \A nm \in {a, b} : (nm \in Kids(t, r.p)) = (Here(t, x \o <<47>> \o nm).e = "ok")
\* a resolved path holds no link and leads to itself
RealIsReal == \A x \in P : LET r == At(t, x) IN r.e = "ok" =>
    /\ \A i \in 1..Len(r.p) : t[SubSeq(r.p, 1, i)].k # "l"
    /\ Lead(t, <<>>, r.p, 0) = r
=============================================================================
