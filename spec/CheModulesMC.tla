--------------------------- MODULE CheModulesMC ---------------------------
(* Exhaustive: one name defined in every way in each of three modules (main,
   A, B), every import relation, every reference to the name.              *)
EXTENDS CheModules, Json
CONSTANT Emit
VARIABLES prog, at, ref

Defs == {<<>>} \cup { <<[n |-> "n", k |-> k, pub |-> b, v |-> 0]>> : k \in {"fn", "const", "struct", "alias"}, b \in BOOLEAN }
        \cup { <<[n |-> "n", k |-> k, pub |-> FALSE, v |-> 0]>> : k \in {"var", "macro"} }
WithV(d, v) == IF d = <<>> THEN d ELSE <<[d[1] EXCEPT !.v = v]>>
RefKinds == {"fn", "const", "type", "var", "macro"}
Refs == [ns : 0..3, n : {"n"}, k : RefKinds]
Prog(d1, d2, d3, m1, m2) ==
    << [imports |-> m1, items |-> WithV(d1, 11), refs |-> <<>>],
       [imports |-> m2, items |-> WithV(d2, 22), refs |-> <<>>],
       [imports |-> <<>>, items |-> WithV(d3, 33), refs |-> <<>>] >>
Init == /\ \E d1, d2, d3 \in Defs, m1 \in {<<2>>, <<2, 3>>, <<3, 2>>}, m2 \in {<<>>, <<3>>} :
              prog = Prog(d1, d2, d3, m1, m2)
        /\ at = 0 /\ ref = [ns |-> 0, n |-> "n", k |-> "fn"]
Next == /\ at = 0 /\ at' \in 1..3 /\ ref' \in Refs /\ ref'.ns # at' /\ UNCHANGED prog
Spec == Init /\ [][Next]_<<prog, at, ref>>

D == Denotes(prog, at, ref)
\* A reference denotes at most one thing.
Unambiguous == at # 0 => Cardinality(D) <= 1
\* Whatever is denoted is the module's own or a public item of a module it imports itself.
Encapsulated == at # 0 => \A d \in D : d[1] = at \/ (d[1] \in Range1(prog[at].imports) /\ prog[d[1]].items[d[2]].pub)
\* Unqualified names never denote another module's items, whatever is imported.
NoLeak == (at # 0 /\ ref.ns = 0) => \A d \in D : d[1] = at
\* Private items of other modules cannot influence what a reference means.
Public(m) == [m EXCEPT !.items = SelectSeq(@, LAMBDA x : x.pub)]
Scrub(i) == [j \in DOMAIN prog |-> IF j = i THEN prog[j] ELSE Public(prog[j])]
NonInterference == at # 0 =>
    LET q == Scrub(at) e == Denotes(q, at, ref)
    IN /\ (D = {}) = (e = {})
       /\ D # {} => Value(prog, at, ref) = Value(q, at, ref)
\* Imports are not transitive.
NotTransitive == (at = 1 /\ ref.ns = 3 /\ 3 \notin Range1(prog[1].imports)) => D = {}
\* emitted for replay: references from main to main or A (B stays as context)
EmitCase == (Emit /\ at = 1 /\ ref.ns \in {0, 2, 3} /\ (ref.ns = 3 => prog[2].items = <<>>)
             /\ (ref.ns # 3 => prog[3].items = <<>> /\ prog[2].imports = <<>> /\ prog[1].imports = <<2>>))
   => PrintT("CASE " \o ToJson([prog |-> prog, ref |-> ref, ok |-> D # {}, v |-> IF D # {} THEN Value(prog, at, ref) ELSE 0]))
=============================================================================
