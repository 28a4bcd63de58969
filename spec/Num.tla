-------------------------------- MODULE Num ---------------------------------
(* Natural numbers of any size, as sequences of limbs in base 10000, least
   significant first, no leading zero limbs; zero is <<>>.  (TLC's own integers
   are 32 bits wide.)                                                          *)
EXTENDS Integers, Sequences, TLC, SequencesExt

LB == 10000

RECURSIVE StripTo(_, _)
StripTo(a, n) == IF n = 0 THEN <<>>
                 ELSE IF a[n] = 0 THEN StripTo(a, n - 1)
                 ELSE IF n = Len(a) THEN a ELSE SubSeq(a, 1, n)
Strip(a) == StripTo(a, Len(a))

\* Carry: columns of any size become limbs.  The top column must not carry.
\* (TLCEval only makes TLC compute the sequence at once)
RECURSIVE Carry(_)
Carry(a) ==
  IF \A k \in 1..Len(a) : a[k] < LB THEN a
  ELSE Carry(TLCEval([k \in 1..Len(a) |->
                (a[k] % LB) + (IF k = 1 THEN 0 ELSE a[k-1] \div LB)]))

\* a * m + c for 0 <= m, c <= 131072
MulAdd(a, m, c) ==
  IF a = <<>> /\ c < LB THEN IF c = 0 THEN <<>> ELSE <<c>>
  ELSE IF Len(a) = 1 /\ a[1] * m + c < LB
       THEN IF a[1] * m + c = 0 THEN <<>> ELSE <<a[1] * m + c>>
  ELSE LET n == Len(a) IN
       Strip(Carry(TLCEval([k \in 1..(n + 2) |->
          (IF k <= n THEN a[k] * m ELSE 0) + (IF k = 1 THEN c ELSE 0)])))

FromNat(n) == MulAdd(<<>>, 1, n)

RECURSIVE CmpR(_, _, _)
CmpR(a, b, k) == IF k = 0 THEN 0
                 ELSE IF a[k] < b[k] THEN -1 ELSE IF a[k] > b[k] THEN 1
                 ELSE CmpR(a, b, k - 1)
\* -1, 0, 1
Cmp(a, b) == IF Len(a) < Len(b) THEN -1 ELSE IF Len(a) > Len(b) THEN 1
             ELSE CmpR(a, b, Len(a))

Limb(a, k) == IF k >= 1 /\ k <= Len(a) THEN a[k] ELSE 0

Add(a, b) ==
  LET n == (IF Len(a) > Len(b) THEN Len(a) ELSE Len(b)) + 1
  IN Strip(Carry(TLCEval([k \in 1..n |-> Limb(a, k) + Limb(b, k)])))

RECURSIVE SubR(_, _, _, _, _)
SubR(a, b, k, c, acc) ==
  IF k > Len(a) THEN acc
  ELSE LET t == a[k] - Limb(b, k) - c
       IN SubR(a, b, k + 1, IF t < 0 THEN 1 ELSE 0,
               Append(acc, IF t < 0 THEN t + LB ELSE t))
Sub(a, b) == Strip(SubR(a, b, 1, 0, <<>>))     \* a >= b, both short

\* a * b where b has at most 16 limbs
RECURSIVE Col(_, _, _, _)
Col(a, b, k, j) == IF j > Len(b) THEN 0
                   ELSE Limb(a, k - j + 1) * b[j] + Col(a, b, k, j + 1)
Mul(a, b) ==
  IF a = <<>> \/ b = <<>> THEN <<>>
  ELSE Strip(Carry(TLCEval([k \in 1..(Len(a) + Len(b) + 1) |-> Col(a, b, k, 1)])))

\* 2^0, 2^64, ... 2^1216, computed once
RECURSIVE P2From(_, _)
P2From(a, n) == IF n = 0 THEN <<a>>
                ELSE <<a>> \o P2From(MulAdd(MulAdd(MulAdd(MulAdd(a, 65536, 0),
                                        65536, 0), 65536, 0), 65536, 0), n - 1)
P2Tab == P2From(<<1>>, 19)

RECURSIVE ShlSmall(_, _)
ShlSmall(a, n) == IF n <= 0 THEN a
                  ELSE IF n >= 17 THEN ShlSmall(MulAdd(a, 131072, 0), n - 17)
                  ELSE MulAdd(a, 2 ^ n, 0)
MulPow2(a, n) ==
  IF a = <<>> THEN <<>>
  ELSE IF n < 64 THEN ShlSmall(a, n)
  ELSE LET q == n \div 64
           m == IF q > 19 THEN 19 ELSE q
           a1 == IF Len(a) <= 16 THEN Mul(P2Tab[m + 1], a) ELSE a
           left == IF Len(a) <= 16 THEN q - m ELSE q
       IN FoldLeft(LAMBDA x, y : Mul(x, P2Tab[2]), ShlSmall(a1, n % 64),
                   [k \in 1..left |-> k])

MulPow10(a, n) ==
  IF n <= 0 \/ a = <<>> THEN a
  ELSE [k \in 1..(n \div 4) |-> 0] \o MulAdd(a, 10 ^ (n % 4), 0)
=============================================================================
