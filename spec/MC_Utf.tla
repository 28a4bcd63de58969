------------------------------- MODULE MC_Utf -------------------------------
(* Decoding and encoding of text: exactly the well-formed sequences decode, to
   the code point they encode.                                                 *)
EXTENDS Base
CONSTANT Depth

Bytes == {0, 65, 127, 128, 143, 144, 159, 160, 191, 192, 193, 194, 223, 224, 225, 236,
          237, 238, 239, 240, 241, 243, 244, 245, 255}
Cps == {0, 65, 127, 128, 2047, 2048, 55295, 57344, 65533, 65535, 65536, 1114111, 8232, 12354}

VARIABLE s
Init == s = <<>>
Next == Len(s) < Depth /\ \E b \in Bytes : s' = Append(s, b)
Spec == Init /\ [][Next]_s

\* decoding by arithmetic alone
Raw(n) ==
  CASE n = 1 -> s[1]
    [] n = 2 -> (s[1] % 32) * 64 + (s[2] % 64)
    [] n = 3 -> (s[1] % 16) * 4096 + (s[2] % 64) * 64 + (s[3] % 64)
    [] n = 4 -> (s[1] % 8) * 262144 + (s[2] % 64) * 4096 + (s[3] % 64) * 64 + (s[4] % 64)
Well(n) == n <= Len(s) /\ IsScalar(Raw(n)) /\ Enc(Raw(n), 8) = SubSeq(s, 1, n)

Decoding ==
  s # <<>> =>
    LET d == Dec(s, 1, Len(s) + 1, 8) IN
    IF d[1] >= 0 THEN Well(d[2]) /\ Raw(d[2]) = d[1]
    ELSE d[2] = 1 /\ \A n \in 1..4 : ~Well(n)
Validity == ValidText(s, 8) <=>
  \/ s = <<>>
  \/ \E n \in 1..Min(4, Len(s)) : Well(n) /\ ValidText(SubSeq(s, n + 1, Len(s)), 8)
RoundTrip == \A c \in Cps : Dec(Enc(c, 8), 1, Len(Enc(c, 8)) + 1, 8) = <<c, Len(Enc(c, 8))>>
Recode == ValidText(s, 8) =>
  LET v == Transcode(s, 1, Len(s) + 1, 8, 32)
  IN ValidText(v, 32) /\ Transcode(v, 1, Len(v) + 1, 32, 8) = s
=============================================================================
