------------------------------ MODULE DigestMC ------------------------------
(* The published vectors, and laws of the word arithmetic.                    *)
EXTENDS Digest
A(s) == s
VARIABLE x
Small == {0, 1, 2, 255, 256, 32767, 32768, 65535}
Init == x \in { <<a, b, c, d>> : a \in Small, b \in Small, c \in Small, d \in Small }
Next == UNCHANGED x
Spec == Init /\ [][Next]_x
u == <<x[1], x[2]>>
v == <<x[3], x[4]>>
RotLaw == \A n \in {0, 1, 5, 15, 16, 17, 30, 31} : Rot(Rot(u, n), (32 - n) % 32) = u
AddLaw == Add2(u, v) = Add2(v, u) /\ Add2(u, Add2(WNot(u), <<0, 1>>)) = <<0, 0>>
BoolLaw == WXor(u, v) = WOr(WAnd(u, WNot(v)), WAnd(WNot(u), v)) /\ BE(HiLo(u), 1) = u /\ LE(LoHi(u), 1) = u
Abc == <<97, 98, 99>>
\* RFC 1321 A.5 and FIPS 180 examples
ASSUME Md5(<<>>) = <<212,29,140,217,143,0,178,4,233,128,9,152,236,248,66,126>>
ASSUME Md5(Abc) = <<144,1,80,152,60,210,79,176,214,150,63,125,40,225,127,114>>
ASSUME Sha1(<<>>) = <<218,57,163,238,94,107,75,13,50,85,191,239,149,96,24,144,175,216,7,9>>
ASSUME Sha1(Abc) = <<169,153,62,54,71,6,129,106,186,62,37,113,120,80,194,108,156,208,216,157>>
\* the padded message is a whole number of blocks and holds the length
PadLaw == \A n \in {0, 1, 54, 55, 56, 57, 63, 64, 65, 119, 120} : Len(Msg(Zeros(n), TRUE)) % 64 = 0 /\ Len(Msg(Zeros(n), TRUE)) - n \in 9..72
=============================================================================
