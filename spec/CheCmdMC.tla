----------------------------- MODULE CheCmdMC -----------------------------
(* The runner over every assignment of kinds to up to MaxTests tests in two
   directories, tests reported in any order.                                *)
EXTENDS CheCmd
CONSTANT MaxTests
Kinds == {"ok", "fail", "sig", "nc"}
Dirs == UNION { [1..n -> Kinds] : n \in 0..MaxTests }
Mk(pre, ks) == [i \in 1..Len(ks) |-> [p |-> pre \o ToString(i), k |-> ks[i], o |-> ""]]
VARIABLES dirs, st, code
vars == <<dirs, st, code>>
Init == \E a, b \in Dirs : dirs = <<Mk("a", a), Mk("b", b)>> /\ st = Start(dirs) /\ code = -1
Verdict == \E t \in st.todo : st' = Report(st, [e |-> IF Failing(t.k) THEN "fail" ELSE "ok", p |-> t.p, o |-> ""], TRUE) /\ UNCHANGED code
DirEnd == st.todo = {} /\ st.cur /\ st' = Report(st, [e |-> "dir", n |-> st.n], TRUE) /\ UNCHANGED code
Sum == ~st.cur /\ st.dirs = <<>> /\ ~st.done /\ st' = Report(st, [e |-> "sum", fails |-> st.fails, total |-> st.total], TRUE) /\ UNCHANGED code
Exit == st.done /\ code = -1 /\ code' = (IF st.fails > 255 THEN 255 ELSE st.fails) /\ UNCHANGED st
Next == (Verdict \/ DirEnd \/ Sum \/ Exit) /\ UNCHANGED dirs
Spec == Init /\ [][Next]_vars /\ WF_vars(Next)
All == ToSet(dirs[1]) \cup ToSet(dirs[2])
NoErr == st.err = ""
ExitMeansAllPass == code # -1 => ((code = 0) <=> (\A t \in All : t.k = "ok"))
CountsAll == code # -1 => code = Cardinality({ t \in All : t.k # "ok" }) /\ st.total = Len(dirs[1]) + Len(dirs[2])
Ends == <>(code # -1)
=============================================================================
