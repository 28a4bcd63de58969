-------------------------------- MODULE Laws --------------------------------
(* Properties of single readers stated without the readers: what a user expects
   of an integer, a floating-point number or a string, in terms of the text.   *)
EXTENDS Readers, Regex

IsSpace8(u) == u \in {9, 10, 11, 12, 13, 32}
FirstNonWs(s) == IF \E k \in DOMAIN s : ~IsSpace8(s[k])
                 THEN CHOOSE k \in DOMAIN s : ~IsSpace8(s[k]) /\ \A j \in 1..(k-1) : IsSpace8(s[j])
                 ELSE Len(s) + 1

(* ------------------------------------------------------------- integers -- *)
\* signed native value of the digits s[a..z-1]
RECURSIVE Native(_, _, _, _)
Native(s, a, z, b) == IF a >= z THEN 0 ELSE Native(s, a, z - 1, b) * b + DigitVal(s[z - 1])
\* every reading of s from k on as an integer: <<end, value, base>>
Readings(s, k, bases, signs) ==
  LET n == Len(s)
      sg == IF k <= n /\ s[k] \in signs THEN 1 ELSE 0
      neg == sg = 1 /\ s[k] = 45
      a == k + sg
      DigitsOnly(x, z, b) == z > x /\ \A j \in x..(z-1) : DigitVal(s[j]) < b
      V(x, z, b) == LET v == Native(s, x, z, b) IN IF neg THEN -v ELSE v
      All == { <<z, b>> : z \in (a + 1)..(n + 1), b \in bases }
  IN { <<p[1], V(a, p[1], p[2]), p[2]>> : p \in {q \in All : DigitsOnly(a, q[1], q[2])} }

Range8(t) == IF t = "i8" THEN <<-128, 127>> ELSE <<0, 255>>
NativeVal(v) == LET m == Limb(v, 2) IN IF v[1] = 1 THEN -m ELSE m

IntsLaw(t, sp, s, r) ==
  LET k == FirstNonWs(s)
      base == BaseOf(sp.ty)
      signs == IF t = "u8" \/ sp.ty = 117 THEN {43} ELSE {43, 45}
      bases == IF base = 0 THEN {10, 8, 16, 2} ELSE {base}
      plain == Readings(s, k, IF base = 0 THEN {10} ELSE {base}, signs)
      sgn == IF k <= Len(s) /\ s[k] \in signs THEN 1 ELSE 0
  IN IF k > Len(s) THEN r.e = EOI
     ELSE IF r.e = OK
     THEN LET v == NativeVal(r.v) IN
          /\ v >= Range8(t)[1] /\ v <= Range8(t)[2]
          \* the value is that of a non-empty digit string in an admissible base,
          \* the longest one there is, after an optional sign and prefix
          /\ \E b \in bases : \E a \in {k + sgn, k + sgn + 2} :
               /\ a < r.i
               /\ \A j \in a..(r.i - 1) : DigitVal(s[j]) < b
               /\ (r.i <= Len(s) => DigitVal(s[r.i]) >= b)
               /\ a = k + sgn + 2 => s[k + sgn] = 48 /\ ~IsDigit(s[k + sgn + 1])
               /\ LET x == Native(s, a, r.i, b) IN v = IF s[k] = 45 THEN -x ELSE x
     ELSE IF r.e = ISV THEN plain = {}
     ELSE r.e \in {POV, NOV} /\ plain # {} /\ \E p \in plain :
            p[2] < Range8(t)[1] \/ p[2] > Range8(t)[2] \/ p[2] = 0

(* ---------------------------------------------------------------- floats -- *)
FloatsLaw(t, sp, s, r) ==
  LET k == FirstNonWs(s)
      sg == IF k <= Len(s) /\ s[k] \in {43, 45} THEN 1 ELSE 0
      a == k + sg
      dig(j) == j <= Len(s) /\ IsDigit(s[j])
      hex(j) == j <= Len(s) /\ DigitVal(s[j]) < 16
  IN IF k > Len(s) THEN r.e = EOI
     ELSE IF r.e # OK
     \* only what does not start like a number fails (besides out of range)
     THEN \/ r.e \in {POV, NOV, PUF, NUF}
          \/ /\ r.e = ISV
             /\ \/ ~dig(a) /\ (sp.ty # 97 \/ ~hex(a))
                \/ sp.ty = 101
     ELSE /\ r.i > a
          /\ (r.v.neg = 1) = (s[k] = 45)
          \* a sign, an exponent letter or a prefix never ends a number
          /\ s[r.i - 1] \notin {43, 45, 112, 120}
          /\ (s[r.i - 1] = 101 => sp.ty = 97)
          \* a digit is never left behind in plain decimal notation
          /\ (sp.ty = 102 /\ r.v.k \in {"num", "zero"} => ~dig(r.i))
          /\ (r.v.k \in {"inf", "nan"} => Lower(s[a]) \in {105, 110})

(* --------------------------------------------------------------- strings -- *)
StringsLaw(sp, s, r, w) ==
  LET n == Len(s) IN
  IF r.e = OK
  THEN \* the value is the end of the consumed text
       /\ Len(r.v) <= r.i - 1
       /\ SubSeq(s, r.i - Len(r.v), r.i - 1) = r.v
       /\ sp.ty = 0 =>
            /\ r.v # <<>> /\ \A j \in DOMAIN r.v : ~IsSpace8(r.v[j])
            /\ sp.p = 0 /\ r.i <= n => IsSpace8(s[r.i])
       /\ sp.ty = 91 =>
            /\ r.v # <<>> /\ Len(r.v) = r.i - 1
            /\ \A j \in 1..(r.i - 1) :
                 s[j] < 128 => InSet(sp, s[j])
            /\ r.i <= n /\ s[r.i] < 128 => ~InSet(sp, s[r.i])
       /\ sp.ty = 99 => Width(s, 1, r.i, w) <= sp.p /\
                        (r.i <= n => Width(s, 1, r.i, w) + CpWidth(Dec(s, r.i, n + 1, w)[1]) > sp.p)
  ELSE \/ r.e = EOI /\ (n = 0 \/ \A j \in DOMAIN s : IsSpace8(s[j]) \/ sp.p > 0)
       \/ r.e = ISV /\ sp.ty = 91
       \/ r.e = IFILL /\ sp.p > 0 /\ \A j \in 1..sp.p : j <= n => IsSpace8(s[j])

(* --------------------------------------------------- regular expressions -- *)
\* The language of a pattern: all the places where a match that starts at i may
\* end, whatever the priorities
RECURSIVE Ends(_, _, _), EndsSeq(_, _, _), EndsRep(_, _, _, _)
EndsSeq(l, x, ii) == IF l = <<>> THEN ii
                     ELSE EndsSeq(Tail(l), x, UNION {Ends(Head(l), x, i) : i \in ii})
\* after m repetitions at one of ii
EndsRep(n, x, ii, m) ==
  LET next == UNION {Ends(n.n, x, i) : i \in ii}
      here == IF m >= n.lo THEN ii ELSE {}
  IN IF ii = {} \/ (n.hi >= 0 /\ m >= n.hi) \/ m > n.lo + Len(x.s) THEN here
     ELSE here \cup EndsRep(n, x, next, m + 1)
Ends(n, x, i) ==
  CASE n.k = "c" -> IF i < x.e /\ UnitIn(n, x.s[i], x.icase) THEN {i + 1} ELSE {}
    [] n.k = "any" -> IF i < x.e /\ x.s[i] # 10 THEN {i + 1} ELSE {}
    [] n.k = "bol" -> IF i = x.b \/ (x.multi /\ x.s[i - 1] = 10) THEN {i} ELSE {}
    [] n.k = "eol" -> IF i = x.e \/ (x.multi /\ x.s[i] = 10) THEN {i} ELSE {}
    [] n.k = "look" -> IF (Ends(n.n, x, i) = {}) = n.neg THEN {i} ELSE {}
    [] n.k = "grp" -> Ends(n.n, x, i)
    [] n.k = "alt" -> Ends(n.l[1], x, i) \cup Ends(n.l[2], x, i)
    [] n.k = "seq" -> EndsSeq(n.l, x, {i})
    [] n.k = "rep" -> EndsRep(n, x, {i}, 0)

\* What decides between matches
RECURSIVE RxKinds(_)
RxKinds(n) ==
  CASE n.k = "alt" -> {"alt"} \cup RxKinds(n.l[1]) \cup RxKinds(n.l[2])
    [] n.k = "seq" -> UNION {RxKinds(n.l[j]) : j \in DOMAIN n.l}
    [] n.k = "rep" -> (IF n.lo = n.hi THEN {} ELSE IF n.lazy THEN {"lazy"} ELSE {"greedy"}) \cup RxKinds(n.n)
    [] n.k = "grp" -> RxKinds(n.n)
    [] OTHER -> {}

RegexLaw(t, sp, s, r) ==
  LET k == IF t = "str" THEN 1 ELSE FirstNonWs(s)
      p == RxParse(Unslash(sp.re, 1), FALSE)
      x(fl) == [s |-> s, b |-> k, e |-> Len(s) + 1, icase |-> 105 \in fl, multi |-> 109 \in fl]
      all == Ends(p.n, x(sp.fl), k)
      longest == CHOOSE z \in all : \A y \in all : y <= z
      shortest == CHOOSE z \in all : \A y \in all : y >= z
  IN IF t # "str" /\ k > Len(s) THEN r.e = EOI
     ELSE IF ~p.ok THEN r.e = IFS
     ELSE IF all = {} THEN r.e = ISV
     ELSE /\ r.e = OK
          /\ r.i \in all
          \* with one way to repeat and no alternatives, that decides (the patterns
          \* checked repeat single units or whole groups at the end)
          /\ RxKinds(p.n) \subseteq {"greedy"} => r.i = longest
          /\ RxKinds(p.n) \subseteq {"lazy"} => r.i = shortest
          /\ IF t = "str" THEN r.v = SubSeq(s, k, r.i - 1)
             ELSE /\ r.v[1] = <<SubSeq(s, k, r.i - 1)>>
                  /\ Len(r.v) = IF 110 \in sp.fl THEN 1 ELSE 1 + p.g
                  \* every group that took part matched text inside of the whole match
                  /\ \A j \in 2..Len(r.v) : r.v[j] # <<>> =>
                       \E a \in k..r.i : \E z \in a..r.i : r.v[j][1] = SubSeq(s, a, z - 1)
=============================================================================
