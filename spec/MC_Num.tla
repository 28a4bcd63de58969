------------------------------- MODULE MC_Num -------------------------------
(* The arithmetic the specification of numbers rests on, against TLC's own:
   long naturals, and correct rounding in a floating-point format of 3 bits.   *)
EXTENDS Readers

CONSTANTS MaxM, MaxN
VARIABLES m, x, base, n
vars == <<m, x, base, n>>

Init == /\ m \in 1..MaxM /\ x = -4 /\ base \in {2, 10} /\ n = m * 7919 % MaxN
Next == x < 1 /\ x' = x + 1 /\ n' = (n * 31 + m + 17) % MaxN /\ UNCHANGED <<m, base>>
Spec == Init /\ [][Next]_vars

\* scaled by 16 * 64 * 10000
Scale == 16
Sc == 10000 * 64
RECURSIVE Pow(_, _)
Pow(b, k) == IF k = 0 THEN 1 ELSE b * Pow(b, k - 1)
Real == IF x >= 0 THEN m * Pow(base, x) * Sc ELSE m * (Sc \div Pow(base, -x))
Rep(c, k) == IF k >= 0 THEN c * Pow(2, k) * Sc ELSE c * (Sc \div Pow(2, -k))
Codes == {<<c, k>> : c \in 4..7, k \in -4..1} \cup {<<c, -4>> : c \in 1..3}
Dist(p) == LET d == Real - Rep(p[1], p[2]) IN IF d < 0 THEN -d ELSE d
Best == {p \in Codes : \A q \in Codes : Dist(p) <= Dist(q)}
Top == Rep(15, 0)        \* half-way between the greatest value 14 and the next, 16
Bot == Rep(1, -5)        \* half of the least
BM == FromNat(m)

Rounding ==
  CASE FRange("toy", BM, base, x) = "over" -> Real >= Top
    [] FRange("toy", BM, base, x) = "under" -> Real <= Bot
    [] OTHER ->
       /\ Real < Top /\ Real > Bot
       /\ LET near == {p \in Codes : Nearest("toy", BM, base, x, FromNat(p[1]), p[2], p[1] % 2 = 0)}
          IN /\ Cardinality(near) = 1
             /\ near \subseteq Best
             /\ Cardinality(Best) > 1 => \A p \in near : p[1] % 2 = 0

Nat1(v) == Limb(v, 1) + 10000 * Limb(v, 2) + 100000000 * Limb(v, 3)
Norm(v) == v = <<>> \/ v[Len(v)] # 0
k == x + 5
Naturals ==
  /\ Norm(FromNat(n)) /\ Nat1(FromNat(n)) = n
  /\ LET a == MulAdd(FromNat(n), 16, k) IN Norm(a) /\ Nat1(a) = n * 16 + k
  /\ LET a == Add(FromNat(n), FromNat(m)) IN Norm(a) /\ Nat1(a) = n + m
  /\ n >= m => LET a == Sub(FromNat(n), FromNat(m)) IN Norm(a) /\ Nat1(a) = n - m
  /\ Cmp(FromNat(n), FromNat(m)) = (IF n < m THEN -1 ELSE IF n > m THEN 1 ELSE 0)
  /\ LET a == Mul(FromNat(n), FromNat(m % 1000)) IN Norm(a) /\ Nat1(a) = n * (m % 1000)
  /\ Cmp(MulPow2(FromNat(n), 70 + k), Mul(FromNat(n), MulPow2(<<1>>, 70 + k))) = 0
  /\ MulPow10(FromNat(n), 3) = MulAdd(FromNat(n), 1000, 0)
=============================================================================
