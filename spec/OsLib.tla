-------------------------------- MODULE OsLib --------------------------------
(* lib/os (fs, proc) and lib/mime.
   Kind "f": a tree of directories, files and links in which the program stands
   in the directory w; paths are relative byte strings. Kind "p": child
   processes, each a script of actions with its arguments, environment and the
   bytes fed to it. Kind "s": functions of path texts and file types.        *)
EXTENDS TextBase, SequencesExt, OsTypes

Slash == 47
Dot == 46
W == <<119>>

\* ------------------------------------------------------------------ paths
\* the parts between slashes (always at least one, possibly empty)
Comps(p) == FoldLeft(LAMBDA acc, c : IF c = Slash THEN Append(acc, <<>>) ELSE [acc EXCEPT ![Len(acc)] = Append(@, c)], << <<>> >>, p)
Dir == [k |-> "d"]
File(c) == [k |-> "f", c |-> c]
Link(t) == [k |-> "l", t |-> t]
Tree0 == [x \in {<<>>, <<W>>} |-> Dir]
Found(p) == [e |-> "ok", p |-> p]
Fresh(p) == [e |-> "new", p |-> p]
None == [e |-> "none", p |-> <<>>]
Outside == [e |-> "out", p |-> <<>>]        \* above the tree: not judged
\* where the components lead from cur; at most d links are followed
RECURSIVE Lead(_, _, _, _)
Lead(t, cur, cs, d) ==
    IF cs = <<>> THEN Found(cur)
    ELSE IF t[cur].k # "d" THEN None
    ELSE LET h == cs[1] rest == Tail(cs) p == Append(cur, h) IN
         CASE h \in {<<>>, <<Dot>>} -> Lead(t, cur, rest, d)
           [] h = <<Dot, Dot>> -> IF cur = <<>> THEN Outside ELSE Lead(t, Front(cur), rest, d)
           [] Len(h) > 255 -> None
           [] p \notin DOMAIN t -> IF rest = <<>> THEN Fresh(p) ELSE None
           [] t[p].k = "l" -> IF d = 0 THEN None ELSE Lead(t, cur, Comps(t[p].t) \o rest, d - 1)
           [] OTHER -> Lead(t, p, rest, d)
At(t, path) == IF path = <<>> THEN None ELSE Lead(t, <<W>>, Comps(path), 40)
\* the entry itself, when the last component is a link
Here(t, path) ==
    LET cs == Comps(path) l == Len(cs) r == Lead(t, <<W>>, SubSeq(cs, 1, l - 1), 40) IN
    IF path = <<>> \/ cs[l] \in {<<>>, <<Dot>>, <<Dot, Dot>>} THEN (IF r.e = "out" THEN Outside ELSE None)
    ELSE IF r.e # "ok" THEN (IF r.e = "out" THEN Outside ELSE None)
    ELSE IF t[r.p].k # "d" \/ Len(cs[l]) > 255 THEN None
    ELSE IF Append(r.p, cs[l]) \in DOMAIN t THEN Found(Append(r.p, cs[l])) ELSE Fresh(Append(r.p, cs[l]))
Full(p) == FlattenSeq([i \in 1..Len(p) |-> <<Slash>> \o p[i]])
Kids(t, p) == { q[Len(q)] : q \in { x \in DOMAIN t : Len(x) = Len(p) + 1 /\ SubSeq(x, 1, Len(p)) = p } }
Names(S) == LET q == SetToSortSeq(S, LAMBDA a, b : Cmp(a, b) < 0) IN FlattenSeq([i \in 1..Len(q) |-> q[i] \o <<Slash>>])
Put(t, p, n) == [x \in DOMAIN t \cup {p} |-> IF x = p THEN n ELSE t[x]]
Del(t, p) == [x \in DOMAIN t \ {p} |-> t[x]]

DoFs(t, p) ==
    LET path == p.a[1].b
        r == IF p.op \in {"unlink", "mkdir", "link"} THEN Here(t, path) ELSE At(t, path)
        is(k) == r.e = "ok" /\ t[r.p].k = k
    IN IF p.op = "fds" THEN Res(t, <<N(0)>>)
       ELSE IF r.e = "out" THEN Res(t, <<Open>>)
       ELSE CASE p.op = "mkdir" -> IF r.e = "new" THEN Res(Put(t, r.p, Dir), <<N(1)>>) ELSE Res(t, <<N(0)>>)
         [] p.op = "link" -> IF r.e = "new" /\ p.a[2].b # <<>> THEN Res(Put(t, r.p, Link(p.a[2].b)), <<N(1)>>) ELSE Res(t, <<N(0)>>)
         [] p.op = "write" -> IF r.e = "new" \/ is("f") THEN Res(Put(t, r.p, File(p.a[2].b)), <<N(1)>>) ELSE Res(t, <<N(0)>>)
         [] p.op = "read" -> IF is("d") THEN Res(t, <<Open>>) ELSE IF is("f") THEN Res(t, <<B(t[r.p].c)>>) ELSE Res(t, <<Null>>)
         [] p.op = "readstr" -> IF is("d") THEN Res(t, <<Open>>) ELSE IF is("f") THEN Res(t, <<B(CStr(t[r.p].c))>>) ELSE Res(t, <<Null>>)
         [] p.op = "size" -> IF is("d") THEN Res(t, <<Open>>) ELSE Res(t, <<N(IF is("f") THEN Len(t[r.p].c) ELSE -1)>>)
         [] p.op = "exists" -> Res(t, <<Bool(r.e = "ok")>>)
         [] p.op = "isdir" -> Res(t, <<Bool(is("d"))>>)
         [] p.op = "unlink" -> IF r.e = "ok" /\ ~is("d") THEN Res(Del(t, r.p), <<N(1)>>) ELSE Res(t, <<N(0)>>)
         [] p.op = "list" -> IF is("d") THEN Res(t, <<B(Names(Kids(t, r.p)))>>) ELSE Res(t, <<Null>>)
         \* room is counted beyond the path of the tree; -1: a buffer of no bytes
         [] p.op = "real" -> IF r.e = "ok" /\ Len(Full(r.p)) < p.a[2].n THEN Res(t, <<B(Full(r.p))>>) ELSE Res(t, <<Null>>)

\* -------------------------------------------------------------- processes
\* a child: what it was given and what it was fed so far
Lines(ws) == FlattenSeq([i \in 1..Len(ws) |-> ws[i] \o <<10>>])
Act(ch, st, w) ==
    IF st.over \/ w = <<>> THEN st ELSE
    LET a == w[1] x == Tail(w) IN
    CASE a = 111 -> [st EXCEPT !.out = @ \o x]                                        \* o: to the output
      [] a = 101 -> [st EXCEPT !.err = @ \o x]                                        \* e: to the errors
      [] a = 114 -> LET n == Lesser(x[1], Len(ch.in) - st.at) IN                      \* r: that many bytes of the input to the output
                    [st EXCEPT !.out = @ \o SubSeq(ch.in, st.at + 1, st.at + n), !.at = @ + n]
      [] a = 82 -> [st EXCEPT !.over = TRUE, !.status = 256 * ((Len(ch.in) - st.at) % 200)]    \* R: the input to its end, counted
      [] a = 97 -> [st EXCEPT !.out = @ \o Lines(ch.argv)]                            \* a: the arguments
      [] a = 118 -> [st EXCEPT !.out = @ \o Lines(ch.env)]                            \* v: the environment
      [] a = 98 -> [st EXCEPT !.out = @ \o [i \in 1..(1024 * x[1]) |-> 122]]          \* b: kilobytes
      [] a = 120 -> [st EXCEPT !.over = TRUE, !.status = 256 * (x[1] - 1)]            \* x: exit
      [] a = 107 -> [st EXCEPT !.over = TRUE, !.status = 9]                           \* k: killed
      [] OTHER -> st                                                                 \* c: closes its output; s: sleeps
Ran(ch) == FoldLeft(LAMBDA st, w : Act(ch, st, w), [out |-> <<>>, err |-> <<>>, at |-> 0, over |-> FALSE, status |-> 0], Tail(ch.argv))
Missing(ch) == Len(ch.argv[1]) > 0 /\ ch.argv[1][Len(ch.argv[1])] = 33        \* no program's name ends in !
Child(a) == LET n == a[2].n IN [argv |-> [i \in 1..n |-> a[2 + i].b], env |-> [i \in 1..(Len(a) - 2 - n) |-> a[2 + n + i].b], in |-> <<>>]
DoProc(s, p) ==
    CASE p.op = "spawn" -> Res(Put(s, p.a[1].n, Child(p.a)), <<N(1)>>)
      [] p.op = "feed" -> Res([s EXCEPT ![p.a[1].n].in = @ \o p.a[2].b], <<N(Len(p.a[2].b))>>)
      [] p.op = "out" -> Res(s, <<B(IF Missing(s[p.a[1].n]) THEN <<>> ELSE Ran(s[p.a[1].n]).out)>>)
      [] p.op = "err" -> Res(s, <<IF Missing(s[p.a[1].n]) THEN Open ELSE B(Ran(s[p.a[1].n]).err)>>)
      [] p.op = "wait" -> Res(Del(s, p.a[1].n), <<N(1), N(IF Missing(s[p.a[1].n]) THEN 256 ELSE Ran(s[p.a[1].n]).status)>>)
      [] p.op = "fds" -> Res(s, <<N(3 * Cardinality(DOMAIN s))>>)
      \* every job is done once before the call returns, at most 8 at a time;
      \* what the caller had printed before is not printed again
      [] p.op = "jobs" -> Res(s, <<B([i \in 1..p.a[1].n |-> i]), N(1), AtMost(8), N(0)>>)

\* ----------------------------------------------------- path texts and types
LastComp(p) == LET cs == Comps(p) IN cs[Len(cs)]
Ext(p) == LET l == LastComp(p) ds == { i \in 1..Len(l) : l[i] = Dot } IN IF ds = {} THEN <<>> ELSE SubSeq(l, Max(ds) + 1, Len(l))
DirPart(p) == LET l == Len(LastComp(p)) IN IF l = Len(p) THEN <<>> ELSE SubSeq(p, 1, Len(p) - l - 1)
\* the registered types of some extensions: see OsTypes
TypeOf(e) == LET S == { i \in 1..Len(Types) : Types[i][1] = e } IN IF S = {} THEN Null ELSE B(Types[CHOOSE i \in S : TRUE][2])
DoStatic(p) ==
    LET x == p.a[1].b IN
    CASE p.op = "base" -> <<B(LastComp(x))>>
      [] p.op = "ext" -> <<B(Ext(x))>>
      [] p.op = "dir" -> IF Len(x) < p.a[2].n THEN <<B(DirPart(x))>> ELSE <<Null>>
      [] p.op = "mime" -> <<TypeOf(x)>>

Start(kind) == IF kind = "f" THEN Tree0 ELSE <<>>
Do(kind, s, p) == CASE kind = "f" -> DoFs(s, p) [] kind = "p" -> DoProc(s, p) [] OTHER -> Res(s, DoStatic(p))
=============================================================================
