------------------------------ MODULE Readers -------------------------------
(* What a value of each type looks like in the input, how much of it is consumed
   and what value it denotes.  Every reader works on s[i..e-1] only: a field with
   a maximum width is read by the same reader with a nearer end.

   Values: integers and pointers <<sign>> \o limbs (base 10000, least first);
   bool, characters and code points <<code>>; strings their units; floats a
   record that says which real number was written (see Float).                  *)
EXTENDS Fmt, Num

(* ------------------------------------------------------------ integers -- *)
MaxOf(t) ==
  CASE t = "i8"  -> <<127>>          [] t = "u8"  -> <<255>>
    [] t = "i16" -> <<2767, 3>>      [] t = "u16" -> <<5535, 6>>
    [] t = "i32" -> <<3647, 4748, 21>>
    [] t = "u32" -> <<7295, 9496, 42>>
    [] t \in {"il", "i64"} -> <<5807, 5477, 368, 3372, 922>>
    [] t \in {"ul", "u64", "ptr"} -> <<1615, 955, 737, 6744, 1844>>
\* magnitude of the least value
MinMag(t) == IF t \in SInts THEN Add(MaxOf(t), <<1>>) ELSE <<>>

RECURSIVE DigitsEnd(_, _, _, _)
DigitsEnd(s, i, e, b) ==
  IF i < e /\ DigitVal(s[i]) < b THEN DigitsEnd(s, i + 1, e, b) ELSE i
\* the number written by these digits in base b
DecLimb(q, n) ==      \* digits n-3..n, those before the first being 0
  LET D(k) == IF k < 1 THEN 0 ELSE q[k] - 48
  IN D(n) + 10 * D(n - 1) + 100 * D(n - 2) + 1000 * D(n - 3)
DigitSeq(q, b) ==
  IF b = 10 THEN Strip(TLCEval([k \in 1..((Len(q) + 3) \div 4) |->
                                  DecLimb(q, Len(q) - 4 * (k - 1))]))
  ELSE FoldLeft(LAMBDA acc, d : MulAdd(acc, b, DigitVal(d)), <<>>, q)
Digits(s, i, z, b) == DigitSeq(SubSeq(s, i, z - 1), b)

HasPrefix(s, i, e, letter, b) ==
  /\ i + 2 < e /\ s[i] = 48 /\ Lower(s[i+1]) = letter /\ DigitVal(s[i+2]) < b

\* <<where the digits begin, base>>; base 0 asks for the base to be detected.
\* A base prefix counts only when a digit of that base follows it.
IntBase(s, i, e, b) ==
  IF b \in {0, 16} /\ HasPrefix(s, i, e, 120, 16) THEN <<i + 2, 16>>
  ELSE IF b \in {0, 2} /\ HasPrefix(s, i, e, 98, 2) THEN <<i + 2, 2>>
  ELSE IF b \in {0, 8} /\ HasPrefix(s, i, e, 111, 8) THEN <<i + 2, 8>>
  ELSE IF b = 0 /\ i < e /\ s[i] = 48 THEN <<i, 8>>
  ELSE <<i, IF b = 0 THEN 10 ELSE b>>

\* digits and thousands separators (-1: none), in any places
RECURSIVE IntegralEnd(_, _, _, _, _)
IntegralEnd(s, i, e, b, ts) ==
  IF i < e /\ (DigitVal(s[i]) < b \/ s[i] = ts) THEN IntegralEnd(s, i + 1, e, b, ts)
  ELSE i
RECURSIVE DropTs(_, _, _, _)
DropTs(s, i, z, ts) == IF i >= z THEN <<>>
                       ELSE IF s[i] = ts THEN DropTs(s, i + 1, z, ts)
                       ELSE <<s[i]>> \o DropTs(s, i + 1, z, ts)

\* t: the type whose range applies; b: base or 0; allowneg: is a minus sign allowed
ReadIntTs(t, b, allowneg, s, i, e, ts) ==
  IF i >= e THEN Fail(EOI)
  ELSE LET neg == s[i] = 45
           i1  == IF s[i] \in {43, 45} THEN i + 1 ELSE i
           pb  == IntBase(s, i1, e, b)
           \* a zero alone, where it could be a prefix: separators don't follow it
           lone == b \in {0, 8} /\ i1 < e /\ s[i1] = 48 /\ pb = <<i1, 8>> /\ ~(i1 + 1 < e /\ DigitVal(s[i1 + 1]) < 8)
           z   == IF lone THEN i1 + 1
                  ELSE IF ts < 0 THEN DigitsEnd(s, pb[1], e, pb[2])
                  ELSE IntegralEnd(s, pb[1], e, pb[2], ts)
           q   == IF ts < 0 THEN SubSeq(s, pb[1], z - 1) ELSE DropTs(s, pb[1], z, ts)
       IN IF neg /\ ~allowneg THEN Fail(ISV)
          ELSE IF q = <<>> THEN Fail(ISV)
          ELSE LET v == DigitSeq(q, pb[2]) IN
               IF neg
               THEN IF Cmp(v, MinMag(t)) > 0 THEN Fail(NOV)
                    ELSE Got(z, <<IF v = <<>> THEN 0 ELSE 1>> \o v)
               ELSE IF Cmp(v, MaxOf(t)) > 0 THEN Fail(POV)
                    ELSE Got(z, <<0>> \o v)
ReadIntBase(t, b, allowneg, s, i, e) == ReadIntTs(t, b, allowneg, s, i, e, -1)

BaseOf(ty) == CASE ty = 98 -> 2 [] ty = 111 -> 8 [] ty = 120 -> 16
                [] ty = 105 -> 0 [] OTHER -> 10

LocOf(sp) == IF sp.L THEN sp.loc ELSE Classic
ReadInt(t, sp, s, i, e) ==
  ReadIntTs(t, BaseOf(sp.ty), t \in SInts /\ sp.ty # 117, s, i, e, LocOf(sp).ts)

(* Fast integer reading (no format string): whitespace, then an integer in the
   given base (0: detect), base prefix optional                                *)
ReadIntFast(t, b, s, i, e) ==
  LET j == SkipWs(s, i, e, 8) IN
  IF j >= e THEN Fail(EOI) ELSE ReadIntBase(t, b, t \in SInts, s, j, e)

(* -------------------------------------------------------------- floats -- *)
\* precision in bits, exponent of the unit in the last place of the least and
\* of the greatest finite values
\* ("toy": a format small enough to be checked exhaustively, see MC_Num)
FPrec(t) == CASE t = "f32" -> 24 [] t = "f64" -> 53 [] t = "f80" -> 64 [] t = "toy" -> 3
FMinE(t) == CASE t = "f32" -> -149 [] t = "f64" -> -1074 [] t = "f80" -> -16445 [] t = "toy" -> -4
FMaxE(t) == CASE t = "f32" -> 104 [] t = "f64" -> 971 [] t = "f80" -> 16320 [] t = "toy" -> 1
\* decimal orders of magnitude certainly beyond the type's range
FTop(t) == CASE t = "f32" -> 40 [] t = "f64" -> 310 [] t = "f80" -> 4935 [] t = "toy" -> 4
FBot(t) == CASE t = "f32" -> -47 [] t = "f64" -> -326 [] t = "f80" -> -4953 [] t = "toy" -> -4

\* Compare m * base^x (base 10 or 2) with c * 2^k
CmpReal(m, base, x, c, k) ==
  IF base = 2
  THEN LET lo == Min(x, k) IN Cmp(MulPow2(m, x - lo), MulPow2(c, k - lo))
  ELSE LET x2 == IF k > 0 /\ x > 0 THEN Min(x, k) ELSE 0 IN
       Cmp(MulPow2(MulPow10(m, Max(x, 0)), Max(-k, 0)),
           MulPow2(MulPow10(c, Max(-x, 0)), Max(k, 0)))

\* order of magnitude: m * base^x lies between base^(Mag-slack) and base^Mag
DecLen(m) == LET n == Len(m) IN
  4 * (n - 1) + (IF m[n] >= 1000 THEN 4 ELSE IF m[n] >= 100 THEN 3
                 ELSE IF m[n] >= 10 THEN 2 ELSE 1)
TooBig(t, m, base, x) ==
  IF base = 10 THEN DecLen(m) + x > FTop(t) + 1 ELSE x > FMaxE(t) + FPrec(t) + 1
TooSmall(t, m, base, x) ==
  IF base = 10 THEN DecLen(m) + x < FBot(t)
  ELSE x + 4 * DecLen(m) < FMinE(t) - 1

\* certainly representable: well inside the range (no long comparison needed)
Inside(t, m, base, x) ==
  IF base = 10 THEN DecLen(m) + x <= FTop(t) - 3 /\ DecLen(m) + x >= FBot(t) + 4
  ELSE x + 4 * DecLen(m) <= FMaxE(t) + FPrec(t) /\ x >= FMinE(t)

\* What becomes of the non-zero real m * base^x in type t under
\* round-to-nearest, ties-to-even: "over", "under" (rounds to zero) or "fits"
FRange(t, m, base, x) ==
  IF TooBig(t, m, base, x) THEN "over"
  ELSE IF TooSmall(t, m, base, x) THEN "under"
  ELSE IF Inside(t, m, base, x) THEN "fits"
  ELSE IF CmpReal(m, base, x, Sub(MulPow2(<<1>>, FPrec(t) + 1), <<1>>),
                  FMaxE(t) - 1) >= 0 THEN "over"
  ELSE IF CmpReal(m, base, x, <<1>>, FMinE(t) - 1) <= 0 THEN "under"
  ELSE "fits"

\* Is c * 2^k (c even: evn) the correctly rounded value of m * base^x?
Nearest(t, m, base, x, c, k, evn) ==
  LET top == MulPow2(<<1>>, FPrec(t) - 1)
      pow2 == c = top /\ k > FMinE(t)          \* a power of two: finer below
      up == CmpReal(m, base, x, MulAdd(c, 2, 1), k - 1)
      dn == IF pow2 THEN CmpReal(m, base, x, Sub(MulAdd(c, 4, 0), <<1>>), k - 2)
            ELSE CmpReal(m, base, x, Sub(MulAdd(c, 2, 0), <<1>>), k - 1)
  IN /\ (up < 0 \/ (up = 0 /\ evn))
     /\ (dn > 0 \/ (dn = 0 /\ evn))

\* The value reported by the program, <<kind, sign, exponent sign, |exponent|>> \o
\* limbs, against the number written.  kinds: 0 zero 1 finite 2 infinity 3 NaN
FloatMatches(t, x, r) ==
  CASE x.k = "nan" -> r[1] = 3 /\ r[2] = x.neg
    [] x.k = "inf" -> r[1] = 2 /\ r[2] = x.neg
    [] x.k = "zero" -> r[1] = 0 /\ r[2] = x.neg
    [] x.k = "num" ->
         /\ r[1] = 1 /\ r[2] = x.neg
         /\ LET c == SubSeq(r, 5, Len(r))
                k == IF r[3] = 1 THEN -r[4] ELSE r[4]
            IN Nearest(t, x.m, x.base, x.x, c, k, c[1] % 2 = 0)

ClampExp == 1000000
RECURSIVE ExpDigits(_, _, _, _)
ExpDigits(s, i, z, v) ==
  IF i >= z THEN v
  ELSE ExpDigits(s, i + 1, z, IF v >= ClampExp THEN ClampExp
                              ELSE v * 10 + (s[i] - 48))

\* The exponent part at i, if there is a complete one: <<end, exponent>>
ExpPart(s, i, e, letter) ==
  IF i < e /\ Lower(s[i]) = letter
  THEN LET j == IF i + 1 < e /\ s[i+1] \in {43, 45} THEN i + 2 ELSE i + 1
           z == DigitsEnd(s, j, e, 10)
       IN IF z = j THEN <<i, 0>>
          ELSE <<z, LET v == ExpDigits(s, j, z, 0)
                    IN IF s[i+1] = 45 THEN -v ELSE v>>
  ELSE <<i, 0>>

\* digits [point digits]: digits with value below b; dp the decimal point,
\* ts the thousands separator (-1: none), allowed among the integral digits

Mantissa(s, i, e, b, dp, ts) ==
  LET z1 == IntegralEnd(s, i, e, b, ts)
      pt == z1 < e /\ s[z1] = dp
      z2 == IF pt THEN DigitsEnd(s, z1 + 1, e, b) ELSE z1
      ip == DropTs(s, i, z1, ts)
      fp == IF pt THEN SubSeq(s, z1 + 1, z2 - 1) ELSE <<>>
  IN [z |-> z2, ip |-> Len(ip), fp |-> Len(fp), m |-> DigitSeq(ip \o fp, b)]

FNum(t, neg, z, m, base, x) ==
  IF m = <<>> THEN Got(z, [k |-> "zero", neg |-> neg])
  ELSE CASE FRange(t, m, base, x) = "over" -> Fail(IF neg = 1 THEN NOV ELSE POV)
         [] FRange(t, m, base, x) = "under" -> Fail(IF neg = 1 THEN NUF ELSE PUF)
         [] OTHER -> Got(z, [k |-> "num", neg |-> neg, m |-> m, base |-> base, x |-> x])

IsNanChar(u) == IsDigit(u) \/ (u >= 97 /\ u <= 122) \/ (u >= 65 /\ u <= 90) \/ u = 95
RECURSIVE NanEnd(_, _, _)
NanEnd(s, i, e) == IF i < e /\ IsNanChar(s[i]) THEN NanEnd(s, i + 1, e) ELSE i

RECURSIVE HexDigitsAt(_, _, _, _, _)
HexDigitsAt(s, i, e, dp, ts) ==
  \/ i < e /\ DigitVal(s[i]) < 16
  \/ i < e /\ s[i] = ts /\ HexDigitsAt(s, i + 1, e, dp, ts)
  \/ i + 1 < e /\ s[i] = dp /\ DigitVal(s[i+1]) < 16

\* pre: after a 0x prefix (".8" counts as digits then, on its own it does not)
ReadHexFloat(t, neg, s, i, e, dp, ts, pre) ==
  LET mt == Mantissa(s, i, e, 16, dp, ts)
      ex == ExpPart(s, mt.z, e, 112)
  IN IF mt.ip + (IF pre THEN mt.fp ELSE 0) = 0 THEN Fail(ISV)
     ELSE FNum(t, neg, ex[1], mt.m, 2, ex[2] - 4 * mt.fp)

ReadDecFloat(t, neg, s, i, e, dp, ts, expo) ==
  LET mt == Mantissa(s, i, e, 10, dp, ts)
      ex == IF expo = "never" THEN <<mt.z, 0>> ELSE ExpPart(s, mt.z, e, 101)
  IN IF mt.ip = 0 THEN Fail(ISV)
     ELSE IF expo = "must" /\ ex[1] = mt.z THEN Fail(ISV)
     ELSE FNum(t, neg, ex[1], mt.m, 10, ex[2] - mt.fp)

\* "inf", "nan"
TInf == <<105, 110, 102>>
TInity == <<105, 110, 105, 116, 121>>
TNan == <<110, 97, 110>>

ReadFloatL(t, sp, s, i, e, dp, ts) ==
  IF i >= e THEN Fail(EOI)
  ELSE LET neg == IF s[i] = 45 THEN 1 ELSE 0
           j == IF s[i] \in {43, 45} THEN i + 1 ELSE i
           hexok == sp.ty \in {0, 97}
       IN IF AtNoCase(s, j, e, TInf)
          THEN Got(IF AtNoCase(s, j + 3, e, TInity) THEN j + 8 ELSE j + 3,
                   [k |-> "inf", neg |-> neg])
          ELSE IF AtNoCase(s, j, e, TNan)
          THEN IF j + 3 < e /\ s[j+3] = 40
               THEN LET z == NanEnd(s, j + 4, e) IN
                    IF z < e /\ s[z] = 41
                    THEN Got(z + 1, [k |-> "nan", neg |-> neg]) ELSE Fail(ISV)
               ELSE Got(j + 3, [k |-> "nan", neg |-> neg])
          ELSE IF hexok /\ AtNoCase(s, j, e, <<48, 120>>) /\ HexDigitsAt(s, j + 2, e, dp, ts)
          THEN ReadHexFloat(t, neg, s, j + 2, e, dp, ts, TRUE)
          ELSE IF sp.ty = 97 THEN ReadHexFloat(t, neg, s, j, e, dp, ts, FALSE)
          ELSE ReadDecFloat(t, neg, s, j, e, dp, ts,
                 IF sp.ty = 102 THEN "never" ELSE IF sp.ty = 101 THEN "must"
                 ELSE "may")
ReadFloat(t, sp, s, i, e) == ReadFloatL(t, sp, s, i, e, LocOf(sp).dp, LocOf(sp).ts)

(* ----------------------------------------------------- bool and pointer -- *)
\* the longer name first: the other one may be its beginning
ReadBool(sp, s, i, e) ==
  LET lo == LocOf(sp)
      text == sp.ty \in {0, 115}
      first == IF Len(lo.tn) > Len(lo.fn) THEN <<lo.tn, 1>> ELSE <<lo.fn, 0>>
      other == IF first[2] = 1 THEN <<lo.fn, 0>> ELSE <<lo.tn, 1>>
  IN IF sp.ty # 115 /\ i < e /\ s[i] \in {48, 49} THEN Got(i + 1, <<s[i] - 48>>)
     ELSE IF text /\ At(s, i, e, first[1]) THEN Got(i + Len(first[1]), <<first[2]>>)
     ELSE IF text /\ At(s, i, e, other[1]) THEN Got(i + Len(other[1]), <<other[2]>>)
     ELSE Fail(ISV)

ReadPtr(s, i, e) == ReadIntBase("ptr", 16, FALSE, s, i, e)

(* ---------------------------------------------------------- characters -- *)
ReadCp(s, i, e, w) ==
  IF i >= e THEN Fail(EOI)
  ELSE LET d == Dec(s, i, e, w) IN
       IF d[1] < 0 THEN Fail(ISV) ELSE Got(i + d[2], <<d[1]>>)
ReadUnit(s, i, e) == IF i >= e THEN Fail(EOI) ELSE Got(i + 1, <<s[i]>>)

\* characters given as numbers: a char holds -128..127, a wchar_t 32 bits
CharCode(t, v) ==
  LET L(k) == IF k + 1 > Len(v) THEN 0 ELSE v[k + 1]
      sg == IF v[1] = 1 THEN -1 ELSE 1
      n == sg * L(1) + sg * 10000 * L(2) + sg * 100000000 * L(3)
  IN IF t = "ch" /\ n < 0 THEN n + 256 ELSE n
ReadCharNum(t, sp, s, i, e) ==
  LET r == ReadInt(IF t = "ch" THEN "i8" ELSE "i32", sp, s, i, e)
  IN IF r.e # OK THEN r ELSE Got(r.i, <<CharCode(t, r.v)>>)

(* -------------------------------------------------------------- strings -- *)
TargetW(t, w) == CASE t = "str" -> 8 [] t = "wstr" -> 32 [] OTHER -> w

ReadText(t, s, i, z, w) ==
  IF ValidFrom(s, i, z, w) THEN Got(z, Transcode(s, i, z, w, TargetW(t, w)))
  ELSE Fail(ISV)

RECURSIVE UntilFill(_, _, _, _)
UntilFill(s, i, e, fill) ==
  IF i >= e \/ At(s, i, e, fill) THEN i ELSE UntilFill(s, i + 1, e, fill)

InSet(sp, c) ==
  LET m == \E k \in DOMAIN sp.set : c >= sp.set[k][1] /\ c <= sp.set[k][2]
  IN IF sp.inv THEN ~m ELSE m
RECURSIVE SetEnd(_, _, _, _, _)
SetEnd(sp, s, i, e, w) ==
  IF i >= e THEN i
  ELSE LET d == Dec(s, i, e, w) IN
       IF d[1] >= 0 /\ InSet(sp, d[1]) THEN SetEnd(sp, s, i + d[2], e, w) ELSE i

ReadString(t, sp, s, i, e, w) ==
  CASE sp.ty = 91 -> LET z == SetEnd(sp, s, i, e, w) IN
                     IF z = i THEN Fail(ISV) ELSE ReadText(t, s, i, z, w)
    [] sp.ty = 99 -> ReadText(t, s, i, e, w)
    [] sp.ty = 115 /\ sp.al \in {1, 3} ->
         ReadText(t, s, i, UntilFill(s, i, e, sp.fill), w)
    [] OTHER -> ReadText(t, s, i, WordEnd(s, i, e, w), w)
=============================================================================
