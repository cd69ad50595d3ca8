---------------------------- MODULE JsonTextMC ----------------------------
(* Laws over all small values and all short texts, and the texts for replay. *)
EXTENDS JsonText, Json
CONSTANTS Mode, L
Alpha1 == {91, 93, 123, 125, 44, 58, 34, 49, 32}
Num(n, d, e) == [t |-> "#", neg |-> n, d |-> d, e |-> e]
Leaves == {None, True, False, [t |-> "s", b |-> <<>>], [t |-> "s", b |-> <<34, 92, 10, 233>>], Num(FALSE, <<>>, 0), Num(TRUE, <<49, 53>>, 0), Num(FALSE, <<55>>, -12), Num(FALSE, <<49>>, 22)}
Lists(S) == UNION { [1..n -> S] : n \in 0..2 }
Keys == {<<>>, <<97>>, <<34, 9>>}
Up(S) == { [t |-> "[", v |-> l] : l \in Lists(S) } \cup
         { o \in { [t |-> "{", k |-> ks, v |-> l] : ks \in Lists(Keys), l \in Lists(S) } :
               Len(o.k) = Len(o.v) /\ (Len(o.k) = 2 => o.k[1] # o.k[2]) }
Small == {None, Num(TRUE, <<49>>, 1), [t |-> "s", b |-> <<44>>]}
Values == Leaves \cup Up(Leaves) \cup Up(Small \cup Up(Small))
VARIABLE x
Init == IF Mode = "texts" THEN x \in UNION { [1..n -> Alpha1] : n \in 0..L } ELSE x \in (IF L > 4 THEN Values ELSE Leaves \cup Up(Leaves) \cup Up(Small))
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
\* writing and reading again gives the value
RoundTrip == Mode = "values" => Parse(Show(x)) = Ok(x, Len(Show(x)) + 1)
\* every prefix of a text that is an array or object is not a value
PrefixLaw == Mode = "values" /\ x.t \in {"[", "{"} => \A n \in 0..(Len(Show(x)) - 1) : Parse(Cut(Show(x), n)).st # "ok"
\* white space around a text changes nothing
SpaceLaw == Mode = "texts" => LET a == Parse(x) b == Parse(<<32>> \o x \o <<32>>) IN a.st = b.st /\ a.v = b.v
Text == IF Mode = "texts" THEN x ELSE Show(x)
EmitRes == PrintT("RES " \o ToJson([t |-> Text, o |-> DoJson(Start(""), [op |-> "parse", a |-> <<B(Text)>>]).o]))
=============================================================================
