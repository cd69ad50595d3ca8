---------------------------- MODULE CheModules ----------------------------
(* Modules: what an import makes visible, what stays private, which import
   graphs are programs, and how module state behaves.

   A program is a sequence of modules; module 1 is the main one.
     module: [imports |-> <<indexes>>, items |-> <<item>>, refs |-> <<ref>>]
     item:   [n |-> name, k |-> "fn"|"const"|"struct"|"alias"|"var"|"macro",
              pub |-> BOOLEAN, v |-> value]     (variables and macros are private)
     ref:    [ns |-> 0 (unqualified) or a module index, n |-> name,
              k |-> "fn"|"const"|"type"|"var"|"macro"]                      *)
EXTENDS Integers, Sequences, FiniteSets, SequencesExt, TLC

RefKind(k) == IF k \in {"struct", "alias"} THEN "type" ELSE k
Range1(s) == { s[i] : i \in DOMAIN s }

\* The items a reference made in module i denotes (one, or none: an error).
Denotes(p, i, r) ==
    IF r.ns = 0
    THEN { <<i, j>> : j \in { j \in DOMAIN p[i].items : p[i].items[j].n = r.n /\ RefKind(p[i].items[j].k) = r.k } }
    ELSE IF r.ns \notin Range1(p[i].imports) THEN {}
    ELSE { <<r.ns, j>> : j \in { j \in DOMAIN p[r.ns].items :
                                   /\ p[r.ns].items[j].n = r.n /\ p[r.ns].items[j].pub
                                   /\ RefKind(p[r.ns].items[j].k) = r.k } }
\* The name alone is visible (possibly as another kind of thing).
NameVisible(p, i, r) == \E k \in {"fn", "const", "type", "var", "macro"} : Denotes(p, i, [r EXCEPT !.k = k]) # {}
Resolves(p, i, r) == Denotes(p, i, r) # {}
Value(p, i, r) == LET d == CHOOSE d \in Denotes(p, i, r) : TRUE IN p[d[1]].items[d[2]].v
----------------------------------------------------------------------------
\* Import graphs.
RECURSIVE Reach(_, _)
Reach(p, S) == LET T == S \cup UNION { Range1(p[i].imports) : i \in S } IN IF T = S THEN S ELSE Reach(p, T)
Mods(p) == Reach(p, {1})
HasLoop(p) == \E i \in Mods(p) : i \in Reach(p, Range1(p[i].imports))
\* Orders in which every module comes after all it imports.
IsDepsFirst(p, o) == /\ Range1(o) = Mods(p) /\ Len(o) = Cardinality(Mods(p))
                     /\ \A a, b \in DOMAIN o : o[b] \in Range1(p[o[a]].imports) => b < a
\* The dependency tree as printed: <<depth, module>> lines, preorder.
RECURSIVE Tree(_, _, _)
Tree(p, i, d) == <<<<d, i>>>> \o FlattenSeq([k \in DOMAIN p[i].imports |-> Tree(p, p[i].imports[k], d + 1)])
----------------------------------------------------------------------------
Accepted(p) == /\ ~HasLoop(p)
               /\ \A i \in Mods(p) : \A r \in Range1(p[i].refs) : Resolves(p, i, r)
\* A reference to a visible name used as the wrong kind of thing: not judged here.
Misused(p) == \E i \in Mods(p) : \E r \in Range1(p[i].refs) : ~Resolves(p, i, r) /\ NameVisible(p, i, r)
\* What each module sees, reference by reference.
View(p) == [i \in DOMAIN p |-> [k \in DOMAIN p[i].refs |-> IF Resolves(p, i, p[i].refs[k]) THEN Value(p, i, p[i].refs[k]) ELSE 0 - 1]]
Exports(p, i) == [ fns |-> [k \in DOMAIN SelectSeq(p[i].items, LAMBDA x : x.pub /\ x.k = "fn") |-> SelectSeq(p[i].items, LAMBDA x : x.pub /\ x.k = "fn")[k].n],
                   types |-> [k \in DOMAIN SelectSeq(p[i].items, LAMBDA x : x.pub /\ RefKind(x.k) = "type") |-> SelectSeq(p[i].items, LAMBDA x : x.pub /\ RefKind(x.k) = "type")[k].n],
                   consts |-> [k \in DOMAIN SelectSeq(p[i].items, LAMBDA x : x.pub /\ x.k = "const") |-> SelectSeq(p[i].items, LAMBDA x : x.pub /\ x.k = "const")[k].n] ]
----------------------------------------------------------------------------
(* Module state.  Every module owns one private counter, one copy per
   program, reached through any importer.  bump(i) increments and returns
   it; fan(i) bumps i and then fans over the imports of i in order.        *)
RECURSIVE FanAll(_, _, _)
RECURSIVE Fan(_, _, _)
Fan(p, st, i) == LET c == [st.c EXCEPT ![i] = @ + 1] IN FanAll(p, [c |-> c, out |-> Append(st.out, <<i, c[i]>>)], p[i].imports)
FanAll(p, st, s) == IF s = <<>> THEN st ELSE FanAll(p, Fan(p, st, Head(s)), Tail(s))
FanRun(p) == Fan(p, Fan(p, [c |-> [i \in DOMAIN p |-> 0], out |-> <<>>], 1), 1).out
=============================================================================
