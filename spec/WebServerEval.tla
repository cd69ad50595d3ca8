--------------------------- MODULE WebServerEval ---------------------------
(* The responses owed in given worlds for given histories.                  *)
EXTENDS WebServer, TLC, Json
VARIABLE i
Cases == ndJsonDeserialize("cases.ndjson")
WorldOf(ns) == [p \in {ns[k].p : k \in 1..Len(ns)} |-> (CHOOSE k \in {j \in 1..Len(ns) : ns[j].p = p} : TRUE)]
Nodes(ns) == LET f == WorldOf(ns) IN [p \in DOMAIN f |-> ns[f[p]]]
Init == i = 0
Next == i < Len(Cases) /\ i' = i + 1
Spec == Init /\ [][Next]_i

\* what each receiving sees, in the order of the actions; invalid actions are dropped
Run(w, acts, n) ==
    FoldLeft(LAMBDA s, a :
        IF ~Can(s.st, a) THEN s
        ELSE [st |-> Step(w, s.st, a), done |-> Append(s.done, a),
              out |-> Append(s.out, IF a.a = "recv" THEN SubSeq(s.st[a.c].want, s.st[a.c].got + 1, Len(s.st[a.c].want)) ELSE <<>>)],
        [st |-> [c \in 1..n |-> Fresh], done |-> <<>>, out |-> <<>>], acts)
EmitRes == i > 0 =>
    LET x == Cases[i]
        r == Run(Nodes(x.world), x.acts, x.n)
    IN  PrintT("RES " \o ToJson([id |-> x.id, acts |-> r.done, out |-> r.out,
            left |-> [c \in 1..x.n |-> [s |-> r.st[c].s, owed |-> SubSeq(r.st[c].want, r.st[c].got + 1, Len(r.st[c].want))]]]))
=============================================================================
