----------------------------- MODULE CheLexMC -----------------------------
(* All texts up to length N over a small alphabet: laws of the lexer, and
   emission of every text that is exactly one legal literal.               *)
EXTENDS CheLex, Json
CONSTANTS N, Emit
\* quote, backslash, x, 1, blank, slash, star, newline, apostrophe, n
Alpha == {DQ, BS, 120, 49, SP, SLASH, STAR, NL, SQ, 110}
VARIABLE s
Init == s = <<>>
Next == Len(s) < N /\ \E c \in Alpha : s' = Append(s, c)
Spec == Init /\ [][Next]_s
Ts == LexAll(s)
Good == Ts = <<>> \/ Ts[Len(Ts)].k # "err"
\* Tokens are disjoint, in order, and what is between them is blank.
Tiling == LET ts == Ts IN
    /\ \A i \in DOMAIN ts : ts[i].a <= ts[i].b /\ (i > 1 => ts[i - 1].b < ts[i].a)
    /\ Good => \A p \in DOMAIN s : (~\E i \in DOMAIN ts : p \in ts[i].a..ts[i].b) => IsBlank(s[p])
\* A comment means the same as a newline; except that comments split string literals.
StrAdjacent == LET ts == Ts IN \E i \in DOMAIN ts : ts[i].k = "com" /\ \E j, k \in DOMAIN ts : j < i /\ i < k /\ ts[j].k = "str" /\ ts[k].k = "str"
CommentIsBlank == (Good /\ ~StrAdjacent) =>
    LET ts == Ts IN \A i \in DOMAIN ts : ts[i].k = "com" =>
        Plain(Lex(SubSeq(s, 1, ts[i].a - 1) \o <<NL>> \o SubSeq(s, ts[i].b + 1, Len(s)))) = Plain(Lex(s))
\* Blanks between tokens never matter.
BlankInsensitive == Good => LET ts == Ts IN \A i \in DOMAIN ts : (i > 1) =>
    Plain(Lex(SubSeq(s, 1, ts[i].a - 1) \o <<NL>> \o SubSeq(s, ts[i].a, Len(s)))) = Plain(Lex(s))
One == LET t == Lex(s) IN Len(t) = 1 /\ t[1].k \in {"str", "chr"} /\ Legal(t[1].v) /\ (t[1].k = "chr" => Len(t[1].v) = 1)
\* a multi-digit hex escape over one byte is not legal; a line comment must not swallow what follows the text
Closed == LET ts == Ts IN ~(ts[Len(ts)].k = "com" /\ s[ts[Len(ts)].a + 1] = SLASH)
EmitCase == (Emit /\ One /\ Closed) => PrintT("CASE " \o ToJson(s))
=============================================================================
