------------------------------ MODULE CheCmd ------------------------------
(* The command line. `che test d1 d2 ..` compiles and runs every *.test.c
   file below each directory, one verdict per test, then a total; the exit
   status counts the failures. `che exports` lists what a module exports,
   `che deptree` the import tree.

   A test is [p |-> path, k |-> kind, o |-> what it prints]; kind is ok, fail
   (non-zero status), sig (killed) or nc (does not compile).
   Runner state: [dirs: directories still to do, todo: tests of the current
   one not reported yet, n: its size, fails, total, done, err].             *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

Failing(k) == k # "ok"
Load(st) == IF st.dirs = <<>> THEN st
            ELSE [st EXCEPT !.todo = ToSet(st.dirs[1]), !.n = Len(st.dirs[1]), !.cur = TRUE, !.dirs = Tail(st.dirs)]
Start(dirs) == Load([dirs |-> dirs, todo |-> {}, n |-> 0, cur |-> FALSE, fails |-> 0, total |-> 0, done |-> FALSE, err |-> ""])
Bad(st, m) == [st EXCEPT !.err = IF @ = "" THEN m ELSE @]
\* one report of the runner; nc: whether a test that does not compile counts
Report(st, e, nc) ==
    IF st.err # "" THEN st
    ELSE CASE e.e \in {"ok", "fail"} ->
                LET T == { t \in st.todo : t.p = e.p } IN
                IF T = {} THEN Bad(st, "reported twice or not a test: " \o e.p)
                ELSE LET t == CHOOSE t \in T : TRUE IN
                     IF Failing(t.k) # (e.e = "fail") THEN Bad(st, "wrong verdict for " \o e.p)
                     ELSE IF e.o # t.o THEN Bad(st, "output lost: " \o e.p)
                     ELSE [st EXCEPT !.todo = @ \ {t},
                                     !.fails = @ + (IF Failing(t.k) /\ (t.k # "nc" \/ nc) THEN 1 ELSE 0)]
           [] e.e = "dir" ->
                IF st.todo # {} THEN Bad(st, "a test was not run")
                ELSE IF ~st.cur \/ e.n # st.n THEN Bad(st, "wrong number of tests")
                ELSE Load([st EXCEPT !.total = @ + st.n, !.n = 0, !.cur = FALSE])
           [] e.e = "sum" ->
                IF st.cur \/ st.dirs # <<>> THEN Bad(st, "summary before the end")
                ELSE IF e.fails # st.fails \/ e.total # st.total THEN Bad(st, "wrong totals")
                ELSE [st EXCEPT !.done = TRUE]
           [] OTHER ->
                IF ~st.done THEN Bad(st, "no summary")
                ELSE IF e.code # (IF st.fails > 255 THEN 255 ELSE st.fails) THEN Bad(st, "wrong exit status")
                ELSE st
RECURSIVE Fold(_, _, _)
Fold(st, ev, nc) == IF ev = <<>> THEN st ELSE Fold(Report(st, ev[1], nc), Tail(ev), nc)
Judge(dirs, ev, nc) == Fold(Start(dirs), ev, nc).err

\* ---- exports: elements of a module in order
\* [k |-> "enum", pub, ns] | [k |-> "type", pub, n] | [k |-> "fn", pub, n, sig] | [k |-> "var", n]
Pubs(els, k) == SelectSeq(els, LAMBDA x : x.k = k /\ x.pub)
Exports(els) == [consts |-> FlattenSeq([i \in 1..Len(Pubs(els, "enum")) |-> Pubs(els, "enum")[i].ns]),
                 types |-> [i \in 1..Len(Pubs(els, "type")) |-> Pubs(els, "type")[i].n],
                 fns |-> [i \in 1..Len(Pubs(els, "fn")) |-> Pubs(els, "fn")[i].sig]]

\* ---- deptree: imports is a function from module to sequence of modules
RECURSIVE Tree(_, _, _)
Tree(imports, m, d) == <<[d |-> d, m |-> m]>> \o FlattenSeq([i \in 1..Len(imports[m]) |-> Tree(imports, imports[m][i], d + 1)])
=============================================================================
