----------------------------- MODULE WebServer -----------------------------
(* prog/webserver: a file server for one directory, with CGI scripts.       *)
(*                                                                          *)
(* The world is a function from places (sequences of names, <<>> being a    *)
(* scratch directory that holds the served directory and its neighbours) to *)
(* nodes: directories, files, links and scripts.  The clients connect, send *)
(* requests whole or in parts, send rubbish, leave at any moment; the       *)
(* server owes every client the responses to its own requests, in order.    *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt

Root == <<"site">>
Nowhere == <<"?">>

\* Where a path leads: links are followed, and only directories can be walked through.
RECURSIVE Walk(_, _, _, _)
Walk(w, cur, rest, fuel) ==
    IF fuel = 0 THEN Nowhere
    ELSE IF rest = <<>> THEN cur
    ELSE IF w[cur].k # "dir" THEN Nowhere
    ELSE LET h == Head(rest)
             t == Tail(rest)
             p == Append(cur, h)
         IN  IF h \in {"", "."} THEN Walk(w, cur, t, fuel)
             ELSE IF h = ".." THEN (IF cur = <<>> THEN Nowhere ELSE Walk(w, Front(cur), t, fuel))
             ELSE IF p \notin DOMAIN w THEN Nowhere
             ELSE IF w[p].k = "link" THEN Walk(w, cur, w[p].to \o t, fuel - 1)
             ELSE IF w[p].k = "alink" THEN Walk(w, <<>>, w[p].to \o t, fuel - 1)
             ELSE Walk(w, p, t, fuel)

Inside(p) == Len(p) > Len(Root) /\ SubSeq(p, 1, Len(Root)) = Root

Types == [txt |-> "text/plain", html |-> "text/html", css |-> "text/css", json |-> "application/json",
          png |-> "image/png", bin |-> "application/octet-stream", tar |-> "application/x-tar"]
TypeOf(ext) == IF ext \in DOMAIN Types THEN Types[ext] ELSE "text/plain"

NotFound == [k |-> "error", status |-> "404"]

\* The response to a request for the path made of the given parts, with a query string.
Serve(w, parts, q) ==
    IF parts = <<"">>
    THEN [k |-> "list", names |-> {p[Len(Root) + 1] : p \in {x \in DOMAIN w : Inside(x)}}]
    ELSE LET p == Walk(w, Root, parts, 40)
         IN  IF p = Nowhere \/ ~Inside(p) \/ w[p].k = "dir" THEN NotFound
             ELSE IF parts[1] = "cgi-bin" /\ Len(parts) > 1
             THEN IF w[p].k = "cgi" /\ w[p].c # "fails"
                  THEN [k |-> "cgi", script |-> w[p].c, at |-> p, parts |-> parts, query |-> q]
                  ELSE [k |-> "error", status |-> "500"]
             ELSE [k |-> "file", at |-> p, c |-> w[p].c, type |-> TypeOf(w[p].ext)]

-----------------------------------------------------------------------------
(* The clients.  s: none, open, part (an unfinished request), shut (will    *)
(* send nothing more), bad (has sent rubbish), gone.  want: the responses   *)
(* owed since the connection was made; got: how many were received.         *)
Fresh == [s |-> "none", want |-> <<>>, got |-> 0, held |-> <<>>]

Can(st, a) ==
    LET c == st[a.c]
    IN  CASE a.a = "connect" -> c.s \in {"none", "gone"}
          [] a.a \in {"send", "part"} -> c.s = "open"
          [] a.a = "rest" -> c.s = "part"
          [] a.a = "bad" -> c.s = "open" /\ c.got = Len(c.want)
          [] a.a = "shut" -> c.s = "open"
          [] a.a = "recv" -> c.s \in {"open", "part", "shut"} /\ c.got < Len(c.want)
          [] a.a = "leave" -> c.s \notin {"none", "gone"}
          [] OTHER -> FALSE

Step(w, st, a) ==
    LET c == st[a.c]
        n == CASE a.a = "connect" -> [Fresh EXCEPT !.s = "open"]
               [] a.a = "send" -> [c EXCEPT !.want = Append(@, Serve(w, a.parts, a.q))]
               [] a.a = "part" -> [c EXCEPT !.s = "part", !.held = <<Serve(w, a.parts, a.q)>>]
               [] a.a = "rest" -> [c EXCEPT !.s = "open", !.want = @ \o c.held, !.held = <<>>]
               [] a.a = "bad" -> [c EXCEPT !.s = "bad"]
               [] a.a = "shut" -> [c EXCEPT !.s = "shut"]
               [] a.a = "recv" -> [c EXCEPT !.got = Len(c.want)]
               [] a.a = "leave" -> [c EXCEPT !.s = "gone"]
    IN  [st EXCEPT ![a.c] = n]
=============================================================================
