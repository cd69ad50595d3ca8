---------------------------- MODULE CheScopeMC ----------------------------
(* All functions of up to three statements over two names, where a name may
   be a module variable, a parameter, a local or nothing; checks that the
   walk agrees with a direct, declarative reading of the scope rules.       *)
EXTENDS CheScope, Json
CONSTANT Emit
VARIABLES m, phase
Nm == {"x", "y"}
Leaf == { [k |-> "use", x |-> n, ln |-> 0] : n \in Nm } \cup { [k |-> "decl", x |-> n, ini |-> "", ln |-> 0] : n \in Nm }
        \cup { [k |-> "decl", x |-> "x", ini |-> "y", ln |-> 0] }
Body1 == { <<>> } \cup { <<a>> : a \in Leaf } \cup { <<a, b>> : a \in Leaf, b \in Leaf }
Comp == { [k |-> "if", c |-> "", A |-> b, B |-> <<>>, hasElse |-> FALSE, ln |-> 0] : b \in Body1 }
        \cup { [k |-> "for", x |-> "x", cond |-> c, A |-> b, ln |-> 0] : c \in {"x", "y"}, b \in { q \in Body1 : Len(q) < 2 } }
Bodies == Body1 \cup { <<a, q>> : a \in Leaf, q \in Comp } \cup { <<q, a>> : a \in Leaf, q \in Comp } \cup { <<q>> : q \in Comp }
Fn(ps, b) == [n |-> "f", pub |-> TRUE, params |-> ps, void |-> TRUE, body |-> b, ln |-> 0]
Mod(vs, ps, b) == [imports |-> <<>>, consts |-> <<>>, vars |-> vs, fns |-> <<Fn(ps, b)>>]
Opt(n) == { <<>>, <<[n |-> n, ln |-> 0]>> }
Init == /\ phase = 0 /\ \E v \in Opt("x"), p \in Opt("y"), b \in Bodies : m = Mod(v, p, b)
Next == phase = 0 /\ phase' = 1 /\ UNCHANGED m
Spec == Init /\ [][Next]_<<m, phase>>
Fl(k) == { f \in Faults(m) : f.kind = k }
Body == m.fns[1].body
RECURSIVE UsesIn(_)
UsesIn(ss) == UNION { LET s == ss[i] IN CASE s.k = "use" -> {s.x} [] s.k = "decl" -> {s.ini} \ {""} [] s.k = "if" -> UsesIn(s.A) [] s.k = "for" -> {s.cond} \cup UsesIn(s.A) : i \in DOMAIN ss }
RECURSIVE DeclsIn(_)
DeclsIn(ss) == UNION { LET s == ss[i] IN CASE s.k = "use" -> {} [] s.k = "decl" -> {s.x} [] s.k = "if" -> DeclsIn(s.A) [] s.k = "for" -> {s.x} \cup DeclsIn(s.A) : i \in DOMAIN ss }
Outer == { m.vars[i].n : i \in DOMAIN m.vars } \cup { m.fns[1].params[i].n : i \in DOMAIN m.fns[1].params }
\* A name defined nowhere is always reported when used, and only used names are reported.
UndefinedSound == /\ \A f \in Fl("undefined") : f.n \in UsesIn(Body) /\ f.n \notin Outer
                  /\ \A n \in UsesIn(Body) : n \notin Outer \cup DeclsIn(Body) => \E f \in Fl("undefined") : f.n = n
\* A private name never used anywhere is always reported.
UnusedSound == /\ \A n \in (Outer \cup DeclsIn(Body)) \ UsesIn(Body) : \E f \in Fl("unused") : f.n = n
               /\ \A f \in Fl("unused") : f.n \in Outer \cup DeclsIn(Body)
DuplicateSound == \A f \in Fl("duplicate") : f.n \in DeclsIn(Body)
EmitCase == (Emit /\ phase = 1) => PrintT("CASE " \o ToJson(m))
=============================================================================
