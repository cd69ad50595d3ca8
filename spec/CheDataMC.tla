----------------------------- MODULE CheDataMC -----------------------------
(* Storage laws on a small universe: every sequence of up to MaxOps stores,
   struct copies and pointer retargetings over two structs with an array, a
   nested struct and a union.
   Checked: a store changes exactly the place stored to and what shares its
   storage; a copy makes the values equal and later stores to one leave the
   other alone; a place reached through a pointer is the place itself.       *)
EXTENDS CheData
CONSTANT MaxOps
U8 == [k |-> "int", bits |-> 8, sg |-> FALSE]
S8 == [k |-> "int", bits |-> 8, sg |-> TRUE]
U16 == [k |-> "int", bits |-> 16, sg |-> FALSE]
Arr(n, t) == [k |-> "arr", n |-> n, t |-> t]
In == [k |-> "st", name |-> "in"]
Ou == [k |-> "st", name |-> "out"]
Un == [k |-> "un", ms |-> <<[n |-> "b", t |-> Arr(2, U8)], [n |-> "h", t |-> U16]>>]
D == [types |-> <<[name |-> "in", fs |-> <<[n |-> "x", t |-> U8], [n |-> "y", t |-> S8]>>],
                  [name |-> "out", fs |-> <<[n |-> "a", t |-> Arr(2, U8)], [n |-> "s", t |-> In], [n |-> "u", t |-> Un], [n |-> "p", t |-> [k |-> "ptr", name |-> "out"]]>>]>>,
      enums |-> <<>>, fns |-> <<>>]
F(n) == [s |-> "f", n |-> n]
I(j) == [s |-> "i", i |-> j]
Leaves == { <<F("a"), I(0)>>, <<F("a"), I(1)>>, <<F("s"), F("x")>>, <<F("s"), F("y")>>,
            <<F("u"), F("b"), I(0)>>, <<F("u"), F("b"), I(1)>>, <<F("u"), F("h")>> }
Roots == {"v", "w"}
Vals == {0, 1, 200, 300, -1}
InU(p) == p[1].n = "u"
Overlap(p, q) == p = q \/ (InU(p) /\ InU(q) /\ (p[2].n = "h" \/ q[2].n = "h"))
VARIABLES s, n, last
vars == <<s, n, last>>
Base == [m |-> [r \in Roots |-> Zero(D, Ou)], y |-> [r \in Roots |-> Ou], out |-> <<>>]
Init == s = Base /\ n = 0 /\ last = [k |-> "init"]
Read(st, r, p) == Load(D, st, [r |-> r, p |-> p])
DoStore == \E r \in Roots, p \in Leaves, v \in Vals :
    /\ s' = Store(D, s, [r |-> r, p |-> p], v)
    /\ last' = [k |-> "store", r |-> r, p |-> p, v |-> v]
DoCopy == \E r \in Roots : LET q == CHOOSE x \in Roots : x # r IN
    /\ s' = Store(D, s, [r |-> r, p |-> <<>>], Load(D, s, [r |-> q, p |-> <<>>]))
    /\ last' = [k |-> "copy", r |-> r]
DoSub == \E r \in Roots : LET q == CHOOSE x \in Roots : x # r IN
    /\ s' = Store(D, s, [r |-> r, p |-> <<F("s")>>], Load(D, s, [r |-> q, p |-> <<F("s")>>]))
    /\ last' = [k |-> "sub", r |-> r]
DoPtr == \E r, q \in Roots :
    /\ s' = Store(D, s, [r |-> r, p |-> <<F("p")>>], [r |-> q, p |-> <<>>])
    /\ last' = [k |-> "ptr", r |-> r]
Next == n < MaxOps /\ n' = n + 1 /\ (DoStore \/ DoCopy \/ DoSub \/ DoPtr)
Spec == Init /\ [][Next]_vars
Frame == [][ \A r \in Roots, p \in Leaves :
               (CASE last'.k = "store" -> ~(last'.r = r /\ Overlap(last'.p, p))
                  [] last'.k = "copy" -> last'.r # r
                  [] last'.k = "sub" -> ~(last'.r = r /\ p[1].n = "s")
                  [] OTHER -> TRUE) => Read(s', r, p) = Read(s, r, p) ]_vars
Stored == last.k = "store" => Read(s, last.r, last.p) = Conv(TypeAt(D, Ou, last.p), last.v)
Copied == last.k = "copy" => s.m["v"] = s.m["w"]
Shared == \A r \in Roots : Read(s, r, <<F("u"), F("h")>>) =
              Read(s, r, <<F("u"), F("b"), I(0)>>) + 256 * Read(s, r, <<F("u"), F("b"), I(1)>>)
Thru == \A r \in Roots : LET q == Read(s, r, <<F("p")>>) IN
          q.r # "" => Walk(D, s, [r |-> r, p |-> <<>>], <<F("p"), [s |-> "d"], F("s"), F("x")>>) = [r |-> q.r, p |-> <<F("s"), F("x")>>]
=============================================================================
