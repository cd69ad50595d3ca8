------------------------------ MODULE CheLex ------------------------------
(* The lexical layer: program text (a sequence of character codes) is cut
   into tokens, longest match first; blanks and comments separate tokens and
   mean nothing else; adjacent string parts form one literal; a literal
   denotes the bytes / number its text spells.

   A token is [k, a, b, v]: kind, first and last position in the text, value.
   kinds: word num str chr sym import macro com err                        *)
EXTENDS Integers, Sequences, SequencesExt, FiniteSets, TLC

SP == 32 NL == 10 TAB == 9 CR == 13 DQ == 34 SQ == 39 BS == 92 SLASH == 47 STAR == 42 HASH == 35
IsBlank(c) == c \in {SP, NL, TAB, CR}
IsDigit(c) == c \in 48..57
IsHex(c) == c \in 48..57 \/ c \in 65..70 \/ c \in 97..102
IsAlpha(c) == c \in 65..90 \/ c \in 97..122
IsWordStart(c) == IsAlpha(c) \/ c = 95
IsWordChar(c) == IsWordStart(c) \/ IsDigit(c)
HexVal(c) == IF c \in 48..57 THEN c - 48 ELSE IF c \in 65..70 THEN c - 55 ELSE c - 87
At(s, i) == IF i >= 1 /\ i <= Len(s) THEN s[i] ELSE 0
\* position of the first i >= from where P holds, Len+1 when there is none
Scan(s, i, P(_)) == IF i > Len(s) THEN i
                    ELSE LET S == { j \in i..Len(s) : P(s[j]) } IN
                         IF S = {} THEN Len(s) + 1 ELSE CHOOSE j \in S : \A k \in S : j <= k
RECURSIVE EndOfComment(_, _)
EndOfComment(s, i) == IF i >= Len(s) THEN 0
                      ELSE IF s[i] = STAR /\ s[i + 1] = SLASH THEN i + 1 ELSE EndOfComment(s, i + 1)
\* closing quote of a string part whose opening quote is before i; 0 = none
RECURSIVE EndOfPart(_, _)
EndOfPart(s, i) == IF i > Len(s) THEN 0
                   ELSE IF s[i] = DQ THEN i
                   ELSE IF s[i] = BS THEN EndOfPart(s, i + 2) ELSE EndOfPart(s, i + 1)
Utf8(c) == IF c < 128 THEN <<c>>
           ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
           ELSE IF c < 65536 THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
           ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64), 128 + ((c \div 64) % 64), 128 + (c % 64)>>
IsOct(c) == c \in 48..55
\* simple escapes: n t r a b f v \ ' " ?
SimpleEsc == [x \in {110, 116, 114, 97, 98, 102, 118, 92, 39, 34, 63} |->
    CASE x = 110 -> 10 [] x = 116 -> 9 [] x = 114 -> 13 [] x = 97 -> 7 [] x = 98 -> 8
      [] x = 102 -> 12 [] x = 118 -> 11 [] OTHER -> x]
RECURSIVE HexRun(_, _, _)
HexRun(s, i, acc) == IF i <= Len(s) /\ IsHex(s[i]) THEN HexRun(s, i + 1, acc * 16 + HexVal(s[i])) ELSE acc
\* Bytes of the raw text of one part (which may span lines); <<-1>> somewhere = not a legal literal
RECURSIVE Bytes(_)
Bytes(r) ==
    IF r = <<>> THEN <<>>
    ELSE IF r[1] # BS THEN Utf8(r[1]) \o Bytes(Tail(r))
    ELSE IF Len(r) < 2 THEN <<-1>>
    ELSE IF r[2] = 120
         THEN LET e == Scan(r, 3, LAMBDA c : ~IsHex(c)) IN
              IF e = 3 \/ e > 5 THEN <<-1>> ELSE <<HexRun(SubSeq(r, 3, e - 1), 1, 0)>> \o Bytes(SubSeq(r, e, Len(r)))
    ELSE IF IsOct(r[2])
         THEN LET e0 == Scan(r, 2, LAMBDA c : ~IsOct(c))
                  e == IF e0 > 5 THEN 5 ELSE e0
                  v == IF e = 3 THEN r[2] - 48 ELSE IF e = 4 THEN (r[2] - 48) * 8 + r[3] - 48
                       ELSE (r[2] - 48) * 64 + (r[3] - 48) * 8 + r[4] - 48
              IN IF v > 255 THEN <<-1>> ELSE <<v>> \o Bytes(SubSeq(r, e, Len(r)))
    ELSE IF r[2] \in DOMAIN SimpleEsc THEN <<SimpleEsc[r[2]]>> \o Bytes(SubSeq(r, 3, Len(r)))
    ELSE <<-1>>
Legal(bs) == \A i \in DOMAIN bs : bs[i] >= 0
\* string literal from i (s[i] = quote): parts separated by blanks only
RECURSIVE StrTok(_, _, _, _)
StrTok(s, a, i, v) ==
    LET q == EndOfPart(s, i + 1) IN
    IF q = 0 THEN [k |-> "err", a |-> a, b |-> Len(s), v |-> <<>>]
    ELSE LET w == v \o Bytes(SubSeq(s, i + 1, q - 1))
             n == Scan(s, q + 1, LAMBDA c : ~IsBlank(c))
         IN IF At(s, n) = DQ THEN StrTok(s, a, n, w) ELSE [k |-> "str", a |-> a, b |-> q, v |-> w]
ChrTok(s, i) ==
    LET q == IF At(s, i + 1) = BS THEN i + 3 ELSE i + 2 IN
    IF At(s, q) # SQ \/ q > Len(s) THEN [k |-> "err", a |-> i, b |-> Len(s), v |-> <<>>]
    ELSE [k |-> "chr", a |-> i, b |-> q, v |-> IF s[i + 1] \in {SQ, NL} THEN <<-1>> ELSE Bytes(SubSeq(s, i + 1, q - 1))]
\* numbers: value is left as text; see IntValue
NumEnd(s, i) ==
    IF s[i] = 48 /\ At(s, i + 1) = 120
    THEN Scan(s, Scan(s, i + 2, LAMBDA c : ~IsHex(c)), LAMBDA c : c \notin {85, 76})
    ELSE LET d == Scan(s, i, LAMBDA c : ~IsDigit(c))
             hasdot == At(s, d) = 46
             f == IF hasdot THEN Scan(s, d + 1, LAMBDA c : ~IsDigit(c)) ELSE d
             e == IF At(s, f) \in {101, 69}
                  THEN Scan(s, IF At(s, f + 1) \in {45, 43} THEN f + 2 ELSE f + 1, LAMBDA c : ~IsDigit(c)) ELSE f
         IN Scan(s, e, LAMBDA c : c \notin ({85, 76} \cup (IF hasdot THEN {102} ELSE {})))
NumTok(s, i) == LET e == NumEnd(s, i) IN
    IF IsAlpha(At(s, e)) THEN [k |-> "err", a |-> i, b |-> e, v |-> <<>>]
    ELSE [k |-> "num", a |-> i, b |-> e - 1, v |-> SubSeq(s, i, e - 1)]
\* operators, longest first (as code sequences)
Sym3 == { <<60,60,61>>, <<62,62,61>>, <<46,46,46>> }
Sym2 == { <<43,43>>, <<45,45>>, <<45,62>>, <<60,60>>, <<62,62>>, <<60,61>>, <<62,61>>, <<38,38>>, <<124,124>>,
          <<43,61>>, <<45,61>>, <<42,61>>, <<47,61>>, <<37,61>>, <<38,61>>, <<94,61>>, <<124,61>>, <<61,61>>, <<33,61>> }
Sym1 == { 33, 126, 38, 94, 42, 47, 37, 61, 124, 58, 44, 60, 62, 43, 45, 123, 125, 59, 91, 93, 40, 41, 46, 63 }
SymTok(s, i) ==
    LET n == IF i + 2 <= Len(s) /\ SubSeq(s, i, i + 2) \in Sym3 THEN 3
             ELSE IF i + 1 <= Len(s) /\ SubSeq(s, i, i + 1) \in Sym2 THEN 2
             ELSE IF s[i] \in Sym1 THEN 1 ELSE 0
    IN IF n = 0 THEN [k |-> "err", a |-> i, b |-> i, v |-> <<>>]
       ELSE [k |-> "sym", a |-> i, b |-> i + n - 1, v |-> SubSeq(s, i, i + n - 1)]
\* The token starting at i (a non-blank).
TokAt(s, i) ==
    LET c == s[i] IN
    IF c = HASH THEN LET e == Scan(s, i, LAMBDA x : x = NL) IN [k |-> "macro", a |-> i, b |-> e - 1, v |-> <<>>]
    ELSE IF c = SLASH /\ At(s, i + 1) = STAR
         THEN LET e == EndOfComment(s, i + 2) IN
              IF e = 0 THEN [k |-> "err", a |-> i, b |-> Len(s), v |-> <<>>] ELSE [k |-> "com", a |-> i, b |-> e, v |-> <<>>]
    ELSE IF c = SLASH /\ At(s, i + 1) = SLASH
         THEN LET e == Scan(s, i, LAMBDA x : x = NL) IN [k |-> "com", a |-> i, b |-> e - 1, v |-> <<>>]
    ELSE IF IsWordStart(c) THEN LET e == Scan(s, i, LAMBDA x : ~IsWordChar(x)) IN [k |-> "word", a |-> i, b |-> e - 1, v |-> SubSeq(s, i, e - 1)]
    ELSE IF IsDigit(c) THEN NumTok(s, i)
    ELSE IF c = DQ THEN StrTok(s, i, i, <<>>)
    ELSE IF c = SQ THEN ChrTok(s, i)
    ELSE SymTok(s, i)
RECURSIVE LexFrom(_, _)
LexFrom(s, i) ==
    LET j == Scan(s, i, LAMBDA c : ~IsBlank(c)) IN
    IF j > Len(s) THEN <<>>
    ELSE LET t == TokAt(s, j) IN IF t.k = "err" THEN <<t>> ELSE <<t>> \o LexFrom(s, t.b + 1)
LexAll(s) == LexFrom(s, 1)
Lex(s) == SelectSeq(LexAll(s), LAMBDA t : t.k # "com")
Plain(ts) == [i \in DOMAIN ts |-> [k |-> ts[i].k, v |-> ts[i].v]]
\* line and column of position i
LineOf(s, i) == 1 + Cardinality({ j \in 1..(i - 1) : s[j] = NL })
ColOf(s, i) == LET ps == { j \in 1..(i - 1) : s[j] = NL } IN
    IF ps = {} THEN i ELSE i - (CHOOSE j \in ps : \A k \in ps : k <= j)
----------------------------------------------------------------------------
\* Values of numbers, in thousandths, for texts whose value fits.
RECURSIVE DecRun(_, _, _)
DecRun(s, i, acc) == IF i <= Len(s) /\ IsDigit(s[i]) THEN DecRun(s, i + 1, acc * 10 + s[i] - 48) ELSE acc
RECURSIVE OctRun(_, _, _)
OctRun(s, i, acc) == IF i <= Len(s) /\ IsDigit(s[i]) THEN OctRun(s, i + 1, acc * 8 + s[i] - 48) ELSE acc
RECURSIVE Scale(_, _)
Scale(x, e) == IF e = 0 THEN x ELSE IF e > 0 THEN Scale(x * 10, e - 1) ELSE Scale(x \div 10, e + 1)
IsFloatText(t) == \E i \in DOMAIN t : t[i] = 46 \/ (t[i] \in {101, 69} /\ ~(Len(t) > 1 /\ t[2] = 120))
IntValue(t) == IF Len(t) > 1 /\ t[1] = 48 /\ t[2] = 120 THEN HexRun(t, 3, 0)
               ELSE IF t[1] = 48 THEN OctRun(t, 1, 0) ELSE DecRun(t, 1, 0)
Milli(t) ==
    LET d == Scan(t, 1, LAMBDA c : ~IsDigit(c))
        ip == DecRun(t, 1, 0)
        f == IF At(t, d) = 46 THEN Scan(t, d + 1, LAMBDA c : ~IsDigit(c)) ELSE d
        fd == IF f > d + 1 THEN f - d - 1 ELSE 0
        fp == IF fd > 0 THEN DecRun(SubSeq(t, d + 1, f - 1), 1, 0) ELSE 0
        neg == At(t, f + 1) = 45
        es == IF At(t, f) \in {101, 69} THEN (IF At(t, f + 1) \in {45, 43} THEN f + 2 ELSE f + 1) ELSE 0
        ev == IF es = 0 THEN 0 ELSE DecRun(t, es, 0)
    IN Scale(Scale(ip, fd) + fp, 3 - fd + (IF neg THEN -ev ELSE ev))
=============================================================================
