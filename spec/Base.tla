-------------------------------- MODULE Base --------------------------------
(* Text model shared by every module of the specification.

   A text is a sequence of code units; `w` is the size of a unit in bits (8: a
   char-based source holding UTF-8, 32: a wchar_t-based source holding UTF-32).
   A position is the index of the next unit to be read, an end is one past the
   last readable unit: the unread part of `s` from `i` is s[i..e-1].           *)
EXTENDS Integers, Sequences, FiniteSets, TLC

(* ------------------------------------------------------------- errors -- *)
OK    == 0    \* success
EOI   == 1    \* end_of_input
IFS   == 2    \* invalid_format_string
ISV   == 3    \* invalid_scanned_value
ILIT  == 4    \* invalid_literal
IFILL == 5    \* invalid_fill
LTS   == 6    \* length_too_short
ISS   == 7    \* invalid_source_state
POV   == 8    \* value_positive_overflow
NOV   == 9    \* value_negative_overflow
PUF   == 10   \* value_positive_underflow
NUF   == 11   \* value_negative_underflow

(* A reader yields a record: e (error or OK), i (position after it), v (value) *)
Got(i, v)  == [e |-> OK,  i |-> i, v |-> v]
Fail(e)    == [e |-> e,   i |-> 0, v |-> <<>>]

Max(a, b) == IF a > b THEN a ELSE b
Min(a, b) == IF a < b THEN a ELSE b

(* ----------------------------------------------------------- encoding -- *)
IsScalar(c) == (c >= 0 /\ c < 55296) \/ (c > 57343 /\ c < 1114112)
Cont(b) == b >= 128 /\ b < 192

\* Decode one code point of s at i, not looking past e: <<code point, units>>;
\* <<-1, 1>> when no valid code point starts there.
Dec(s, i, e, w) ==
  IF w = 32 THEN IF IsScalar(s[i]) THEN <<s[i], 1>> ELSE <<-1, 1>>
  ELSE LET b == s[i] IN
    IF b < 128 THEN <<b, 1>>
    ELSE IF b >= 194 /\ b < 224 THEN
      IF i + 1 < e /\ Cont(s[i+1])
      THEN <<(b - 192) * 64 + s[i+1] - 128, 2>> ELSE <<-1, 1>>
    ELSE IF b >= 224 /\ b < 240 THEN
      IF i + 2 < e /\ Cont(s[i+1]) /\ Cont(s[i+2])
      THEN LET c == (b - 224) * 4096 + (s[i+1] - 128) * 64 + s[i+2] - 128
           IN IF c >= 2048 /\ IsScalar(c) THEN <<c, 3>> ELSE <<-1, 1>>
      ELSE <<-1, 1>>
    ELSE IF b >= 240 /\ b < 245 THEN
      IF i + 3 < e /\ Cont(s[i+1]) /\ Cont(s[i+2]) /\ Cont(s[i+3])
      THEN LET c == (b - 240) * 262144 + (s[i+1] - 128) * 4096
                    + (s[i+2] - 128) * 64 + s[i+3] - 128
           IN IF c >= 65536 /\ IsScalar(c) THEN <<c, 4>> ELSE <<-1, 1>>
      ELSE <<-1, 1>>
    ELSE <<-1, 1>>

RECURSIVE ValidFrom(_, _, _, _)
ValidFrom(s, i, e, w) ==
  IF i >= e THEN TRUE
  ELSE LET d == Dec(s, i, e, w) IN d[1] >= 0 /\ ValidFrom(s, i + d[2], e, w)
ValidText(s, w) == ValidFrom(s, 1, Len(s) + 1, w)

\* Encode a code point as units of width w
Enc(c, w) ==
  IF w = 32 \/ c < 128 THEN <<c>>
  ELSE IF c < 2048 THEN <<192 + c \div 64, 128 + (c % 64)>>
  ELSE IF c < 65536
       THEN <<224 + c \div 4096, 128 + ((c \div 64) % 64), 128 + (c % 64)>>
  ELSE <<240 + c \div 262144, 128 + ((c \div 4096) % 64),
         128 + ((c \div 64) % 64), 128 + (c % 64)>>

\* s[i..e-1] (valid in width w) re-encoded in width t
RECURSIVE Transcode(_, _, _, _, _)
Transcode(s, i, e, w, t) ==
  IF w = t THEN SubSeq(s, i, e - 1)
  ELSE IF i >= e THEN <<>>
  ELSE LET d == Dec(s, i, e, w) IN
       Enc(d[1], t) \o Transcode(s, i + d[2], e, w, t)

(* --------------------------------------------------------- whitespace -- *)
IsWs(c) == c \in {32, 9, 10, 11, 12, 13, 133, 8206, 8207, 8232, 8233}

RECURSIVE SkipWs(_, _, _, _)
SkipWs(s, i, e, w) ==
  IF i >= e THEN i
  ELSE LET d == Dec(s, i, e, w) IN
       IF d[1] >= 0 /\ IsWs(d[1]) THEN SkipWs(s, i + d[2], e, w) ELSE i

RECURSIVE WordEnd(_, _, _, _)
WordEnd(s, i, e, w) ==
  IF i >= e THEN i
  ELSE LET d == Dec(s, i, e, w) IN
       IF d[1] >= 0 /\ IsWs(d[1]) THEN i ELSE WordEnd(s, i + d[2], e, w)

(* --------------------------------------------------------- text width -- *)
CpWidth(c) ==
  IF c < 4352 THEN 1
  ELSE IF \/ c <= 4447 \/ c = 9001 \/ c = 9002
          \/ (c >= 11904 /\ c <= 42191 /\ c # 12351)
          \/ (c >= 44032 /\ c <= 55203) \/ (c >= 63744 /\ c <= 64255)
          \/ (c >= 65040 /\ c <= 65049) \/ (c >= 65072 /\ c <= 65135)
          \/ (c >= 65280 /\ c <= 65376) \/ (c >= 65504 /\ c <= 65510)
          \/ (c >= 127744 /\ c <= 128591) \/ (c >= 129280 /\ c <= 129535)
          \/ (c >= 131072 /\ c <= 196605) \/ (c >= 196608 /\ c <= 262141)
       THEN 2 ELSE 1

RECURSIVE Width(_, _, _, _)
Width(s, i, e, w) ==
  IF i >= e THEN 0
  ELSE LET d == Dec(s, i, e, w) IN
       CpWidth(d[1]) + Width(s, i + d[2], e, w)

\* The end of the longest run of whole code points from i of width at most n
RECURSIVE LimitEnd(_, _, _, _, _)
LimitEnd(s, i, e, w, n) ==
  IF i >= e \/ n <= 0 THEN i
  ELSE LET d == Dec(s, i, e, w) IN
       IF CpWidth(d[1]) > n THEN i
       ELSE LimitEnd(s, i + d[2], e, w, n - CpWidth(d[1]))

(* ------------------------------------------------------- ASCII letters -- *)
Lower(u) == IF u >= 65 /\ u <= 90 THEN u + 32 ELSE u
\* Does lower-case ASCII text t stand at i, ignoring ASCII case?
AtNoCase(s, i, e, t) ==
  /\ i + Len(t) <= e
  /\ \A k \in 1..Len(t) : Lower(s[i + k - 1]) = t[k]
At(s, i, e, t) ==
  /\ i + Len(t) <= e
  /\ \A k \in 1..Len(t) : s[i + k - 1] = t[k]
IsDigit(u) == u >= 48 /\ u <= 57
DigitVal(u) == IF u >= 48 /\ u <= 57 THEN u - 48
               ELSE IF u >= 97 /\ u <= 122 THEN u - 87
               ELSE IF u >= 65 /\ u <= 90 THEN u - 55
               ELSE 99
=============================================================================
