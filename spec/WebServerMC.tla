---------------------------- MODULE WebServerMC ----------------------------
(* All behaviours of two clients in a small world with a neighbour whose    *)
(* name begins with the name of the served directory, links that lead out,  *)
(* back in and in circles.                                                  *)
EXTENDS WebServer, TLC, Json
CONSTANTS Emit, Depth
VARIABLES st, hist

Dir == [k |-> "dir"]
File(c, e) == [k |-> "file", c |-> c, ext |-> e]
Link(t) == [k |-> "link", to |-> t]
World == <<>> :> Dir
      @@ <<"site">> :> Dir
      @@ <<"site", "a.txt">> :> File(1, "txt")
      @@ <<"site", "sub">> :> Dir
      @@ <<"site", "sub", "b.html">> :> File(2, "html")
      @@ <<"site", "up">> :> Link(<<"..">>)
      @@ <<"site", "out">> :> Link(<<"..", "site-old", "s.txt">>)
      @@ <<"site", "in">> :> Link(<<"..", "site", "sub", "b.html">>)
      @@ <<"site", "loop">> :> Link(<<"loop">>)
      @@ <<"site-old">> :> Dir
      @@ <<"site-old", "s.txt">> :> File(3, "txt")
      @@ <<"o.txt">> :> File(4, "txt")

Names == {"", ".", "..", "a.txt", "sub", "b.html", "up", "out", "in", "loop", "site", "site-old", "s.txt", "o.txt"}
AllPaths == UNION {[1..n -> Names] : n \in 1..4}

\* Nothing outside of the served directory is ever served, whatever the path.
ASSUME \A p \in AllPaths :
          LET r == Serve(World, p, "") IN r.k = "file" => Inside(r.at) /\ World[r.at].k = "file"
\* Every file inside can be had, and climbing out and back in is allowed.
ASSUME Serve(World, <<"sub", "b.html">>, "").c = 2 /\ Serve(World, <<"in">>, "").c = 2
ASSUME Serve(World, <<"..", "site", "a.txt">>, "").c = 1 /\ Serve(World, <<"..", "site-old", "s.txt">>, "") = NotFound
ASSUME Serve(World, <<"up", "site-old", "s.txt">>, "") = NotFound /\ Serve(World, <<"out">>, "") = NotFound

Reqs == {<<"">>, <<"a.txt">>, <<"out">>, <<"sub">>, <<"..", "site", "a.txt">>}
Clients == 1..2
Acts == [a : {"connect", "rest", "bad", "shut", "recv", "leave"}, c : Clients]
        \cup [a : {"send", "part"}, c : Clients, parts : Reqs, q : {""}]

Init == st = [c \in Clients |-> Fresh] /\ hist = <<>>
Next == /\ Len(hist) < Depth
        /\ \E a \in Acts : Can(st, a) /\ st' = Step(World, st, a) /\ hist' = Append(hist, a)
Spec == Init /\ [][Next]_<<st, hist>>

\* What a client is owed follows from its own requests alone.
Own(c) == FoldLeft(LAMBDA s, a : IF a.c = c THEN Step(World, s, a) ELSE s, [x \in Clients |-> Fresh], hist)
Isolation == \A c \in Clients : st[c] = Own(c)[c]
\* One response per request, and never one that was not asked for.
OnePerRequest == \A c \in Clients : st[c].got <= Len(st[c].want)
Contained == \A c \in Clients : \A i \in 1..Len(st[c].want) : st[c].want[i].k = "file" => Inside(st[c].want[i].at)
EmitCase == Emit /\ Len(hist) = Depth => PrintT("CASE " \o ToJson([acts |-> hist]))
=============================================================================
