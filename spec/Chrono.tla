------------------------------- MODULE Chrono -------------------------------
(* Reading of dates and times. *)
EXTENDS Readers

\* The text does not have the literal the specification has (which error is
\* reported for it is left open)
LITX == 12

Lit(c) == [k |-> "lit", c |-> <<c>>]
P(c) == ChrSp(c, FALSE)
\* Composite specifiers, by their parts; %a of %c only has to be there
ChrParts(tok) ==
  IF tok.k # "sp" THEN <<tok>>
  ELSE CASE tok.c = 70 -> <<P(89), Lit(45), P(109), Lit(45), P(100)>>                  \* F: Y-m-d
         [] tok.c = 68 -> <<P(109), Lit(47), P(100), Lit(47), P(121)>>                 \* D: m/d/y
         [] tok.c = 120 -> <<P(109), Lit(47), P(100), Lit(47), P(89)>>                 \* x: m/d/Y
         [] tok.c \in {84, 88} -> <<P(72), Lit(58), P(77), Lit(58), P(83)>>            \* T: H:M:S
         [] tok.c = 82 -> <<P(72), Lit(58), P(77)>>                                    \* R: H:M
         [] tok.c = 114 -> <<P(73), Lit(58), P(77), Lit(58), P(83), [k |-> "ws"], P(112)>>
         [] tok.c = 99 -> <<P(97), [k |-> "ws"], P(98), [k |-> "ws"], P(100), [k |-> "ws"], P(72), Lit(58),
                            P(77), Lit(58), P(83), [k |-> "ws"], P(89)>>
         [] OTHER -> <<tok>>
RECURSIVE ChrExpand(_)
ChrExpand(d) == IF d = <<>> THEN <<>> ELSE ChrParts(Head(d)) \o ChrExpand(Tail(d))

NoTime == [sec |-> <<>>, min |-> <<>>, hour |-> <<>>, h12 |-> FALSE, pm |-> <<>>, mday |-> <<>>, mon |-> <<>>,
           Y |-> <<>>, C |-> <<>>, y |-> <<>>, wday |-> <<>>, yday |-> <<>>, tz |-> <<>>, zn |-> <<>>, sub |-> <<>>]

RECURSIVE SmallNum(_, _, _, _)
SmallNum(s, i, z, v) == IF i >= z THEN v ELSE SmallNum(s, i + 1, z, v * 10 + s[i] - 48)
\* between lo and hi digits, as many as there are
ChrNum(s, i, e, lo, hi) ==
  LET z == Min(DigitsEnd(s, i, e, 10), i + hi) IN
  IF z - i < lo THEN Fail(ISV) ELSE Got(z, SmallNum(s, i, z, 0))

Months == << <<106,97,110>>, <<102,101,98>>, <<109,97,114>>, <<97,112,114>>, <<109,97,121>>, <<106,117,110>>,
             <<106,117,108>>, <<97,117,103>>, <<115,101,112>>, <<111,99,116>>, <<110,111,118>>, <<100,101,99>> >>
MonthRest == << <<117,97,114,121>>, <<114,117,97,114,121>>, <<99,104>>, <<105,108>>, <<>>, <<101>>,
                <<121>>, <<117,115,116>>, <<116,101,109,98,101,114>>, <<111,98,101,114>>, <<101,109,98,101,114>>,
                <<101,109,98,101,114>> >>
Days == << <<115,117,110>>, <<109,111,110>>, <<116,117,101>>, <<119,101,100>>, <<116,104,117>>, <<102,114,105>>,
           <<115,97,116>> >>
DayRest == << <<100,97,121>>, <<100,97,121>>, <<115,100,97,121>>, <<110,101,115,100,97,121>>,
              <<114,115,100,97,121>>, <<100,97,121>>, <<117,114,100,97,121>> >>
\* The short name, or the whole name when all of it is there: <<end, index>>, end 0 if neither
ChrName(s, i, e, short, rest) ==
  IF \E k \in DOMAIN short : AtNoCase(s, i, e, short[k])
  THEN LET k == CHOOSE j \in DOMAIN short : AtNoCase(s, i, e, short[j])
           a == i + Len(short[k])
       IN <<IF AtNoCase(s, a, e, rest[k]) THEN a + Len(rest[k]) ELSE a, k>>
  ELSE <<0, 0>>

ZoneChar(u) == IsDigit(u) \/ (u >= 65 /\ u <= 90) \/ (u >= 97 /\ u <= 122) \/ u \in {45, 43, 95, 47}
RECURSIVE ZoneEnd(_, _, _)
ZoneEnd(s, i, e) == IF i < e /\ ZoneChar(s[i]) THEN ZoneEnd(s, i + 1, e) ELSE i

\* hh[[:]mm], or h[h][:mm]
ChrOffset(s, i, e, alt) ==
  IF i >= e THEN Fail(EOI)
  ELSE LET i1 == IF s[i] \in {43, 45} THEN i + 1 ELSE i
           h == ChrNum(s, i1, e, IF alt THEN 1 ELSE 2, 2)
           colon == h.e = OK /\ h.i < e /\ s[h.i] = 58
           m0 == IF colon THEN h.i + 1 ELSE h.i
           more == h.e = OK /\ (colon \/ ~alt) /\ m0 < e /\ IsDigit(s[m0])
           m == IF more THEN ChrNum(s, m0, e, 2, 2) ELSE Got(h.i, 0)
           v == h.v * 60 + m.v
       IN IF i1 >= e THEN Fail(EOI)
          ELSE IF h.e # OK THEN h
          ELSE IF m.e # OK THEN m
          ELSE Got(m.i, IF s[i] = 45 THEN -v ELSE v)

In(r, lo, hi) == IF r.e = OK /\ (r.v < lo \/ r.v > hi) THEN Fail(ISV) ELSE r
\* The state after one token at i: [e, i, v |-> time]
ChrPut(r, v) == IF r.e # OK THEN r ELSE Got(r.i, v)
ChrTok(tok, s, i, e, w, T) ==
  IF tok.k = "ws" THEN Got(SkipWs(s, i, e, w), T)
  ELSE IF tok.k = "lit"
  THEN IF At(s, i, e, tok.c) THEN Got(i + Len(tok.c), T)
       ELSE IF \A k \in i..(e - 1) : s[k] = tok.c[k - i + 1] THEN Fail(EOI)
       ELSE Fail(LITX)
  ELSE
  LET N(lo, hi) == ChrNum(s, i, e, lo, hi)
      c == tok.c
  IN
  CASE c = 89 -> LET r == N(4, 4) IN ChrPut(r, [T EXCEPT !.Y = <<r.v>>])
    [] c = 121 -> LET r == N(2, 2) IN ChrPut(r, [T EXCEPT !.y = <<r.v>>])
    [] c = 67 -> LET r == N(2, 2) IN ChrPut(r, [T EXCEPT !.C = <<r.v>>])
    [] c = 109 -> LET r == In(N(1, 2), 1, 12) IN ChrPut(r, [T EXCEPT !.mon = <<r.v>>])
    [] c = 106 -> LET r == In(N(1, 3), 1, 366) IN ChrPut(r, [T EXCEPT !.yday = <<r.v - 1>>])
    [] c \in {100, 101} -> LET r == In(N(1, 2), 1, 31) IN ChrPut(r, [T EXCEPT !.mday = <<r.v>>])
    [] c = 119 -> LET r == In(N(1, 1), 0, 6) IN ChrPut(r, [T EXCEPT !.wday = <<r.v>>])
    [] c = 117 -> LET r == In(N(1, 1), 1, 7) IN ChrPut(r, [T EXCEPT !.wday = <<r.v % 7>>])
    [] c \in {72, 107} -> LET r == In(N(1, 2), 0, 23) IN ChrPut(r, [T EXCEPT !.hour = <<r.v>>])
    [] c \in {73, 108} -> LET r == In(N(1, 2), 1, 12) IN ChrPut(r, [T EXCEPT !.hour = <<r.v>>, !.h12 = TRUE])
    [] c = 77 -> LET r == In(N(1, 2), 0, 59) IN ChrPut(r, [T EXCEPT !.min = <<r.v>>])
    [] c = 83 -> LET r == In(N(1, 2), 0, 60) IN
                 IF r.e = OK /\ T.sec # <<>> THEN Fail(IFS) ELSE ChrPut(r, [T EXCEPT !.sec = <<r.v>>])
    [] c = 46 -> LET r == In(N(1, 2), 0, 60)
                     z == DigitsEnd(s, r.i + 1, e, 10)
                     q == <<48, 46>> \o SubSeq(s, r.i + 1, z - 1)
                     x == ReadFloat("f64", NoSpec, q, 1, Len(q) + 1)
                 IN IF r.e # OK THEN r
                    ELSE IF T.sec # <<>> THEN Fail(IFS)
                    ELSE IF r.i >= e \/ s[r.i] # 46 THEN Fail(ISV)
                    ELSE IF z = r.i + 1 THEN Fail(ISV)
                    ELSE IF x.e # OK THEN x
                    ELSE Got(z, [T EXCEPT !.sec = <<r.v>>, !.sub = <<x.v>>])
    [] c \in {98, 66, 104} -> LET n == ChrName(s, i, e, Months, MonthRest) IN
                 IF n[1] = 0 THEN Fail(ISV) ELSE Got(n[1], [T EXCEPT !.mon = <<n[2]>>])
    [] c \in {97, 65} -> LET n == ChrName(s, i, e, Days, DayRest) IN
                 IF n[1] = 0 THEN Fail(ISV) ELSE Got(n[1], [T EXCEPT !.wday = <<n[2] - 1>>])
    [] c \in {112, 80} ->
         IF AtNoCase(s, i, e, <<97, 109>>) THEN Got(i + 2, [T EXCEPT !.pm = <<0>>])
         ELSE IF AtNoCase(s, i, e, <<97, 46, 109, 46>>) THEN Got(i + 4, [T EXCEPT !.pm = <<0>>])
         ELSE IF AtNoCase(s, i, e, <<112, 109>>) THEN Got(i + 2, [T EXCEPT !.pm = <<1>>])
         ELSE IF AtNoCase(s, i, e, <<112, 46, 109, 46>>) THEN Got(i + 4, [T EXCEPT !.pm = <<1>>])
         ELSE Fail(ISV)
    [] c = 122 -> LET r == ChrOffset(s, i, e, tok.alt) IN ChrPut(r, [T EXCEPT !.tz = <<r.v>>])
    [] c = 90 -> LET z == ZoneEnd(s, i, e) IN
                 IF z = i THEN Fail(ISV)
                 ELSE Got(z, [T EXCEPT !.zn = <<SubSeq(s, i, z - 1)>>])

RECURSIVE ChrWalk(_, _, _, _, _, _, _)
ChrWalk(d, k, s, i, e, w, T) ==
  IF k > Len(d) THEN Got(i, T)
  ELSE LET r == ChrTok(d[k], s, i, e, w, T) IN
       IF r.e # OK THEN r ELSE ChrWalk(d, k + 1, s, r.i, e, w, r.v)

Hour(T) == IF T.pm = <<>> THEN T.hour
           ELSE <<(T.hour[1] % 12) + 12 * T.pm[1]>>
Year(T) == IF T.Y # <<>> THEN T.Y
           ELSE IF T.C # <<>> THEN <<100 * T.C[1] + (IF T.y # <<>> THEN T.y[1] ELSE 0)>>
           ELSE IF T.y # <<>> THEN <<IF T.y[1] >= 69 THEN 1900 + T.y[1] ELSE 2000 + T.y[1]>>
           ELSE <<>>
Or(x, d) == IF x = <<>> THEN d ELSE x[1]

\* days since 1970-01-01 of a day of the proleptic Gregorian calendar
LeapsBefore(y) == LET p == y - 1 IN p \div 4 - p \div 100 + p \div 400
Leap(y) == y % 4 = 0 /\ (y % 100 # 0 \/ y % 400 = 0)
MonthDays(y, m) == IF m = 2 THEN IF Leap(y) THEN 29 ELSE 28 ELSE IF m \in {4, 6, 9, 11} THEN 30 ELSE 31
RECURSIVE DaysBefore(_, _)
DaysBefore(y, m) == IF m = 1 THEN 0 ELSE DaysBefore(y, m - 1) + MonthDays(y, m - 1)
EpochDay(y, m, d) == (y - 1970) * 365 + LeapsBefore(y) - LeapsBefore(1970) + DaysBefore(y, m) + d - 1

TmOf(T) == << Or(T.sec, 0), Or(T.min, 0), Or(Hour(T), 0), Or(T.mday, 0), Or(T.mon, 1) - 1, Or(Year(T), 1900) - 1900,
              Or(T.wday, 0), Or(T.yday, 0), 0, Or(T.tz, 0) * 60 >>
ChrValue(t, T) ==
  CASE t = "Ttm" -> TmOf(T)
    [] t = "Ttz" -> TmOf(T) \o <<T.tz, T.zn>>
    [] t = "Tdt" -> << T.sub, T.sec, T.min, Hour(T), T.mday, T.mon, Year(T), T.wday, T.yday, T.tz, T.zn >>
    [] t = "Tday" -> T.mday [] t = "Tmon" -> T.mon [] t = "Tyear" -> Year(T) [] t = "Twd" -> T.wday
    [] t = "Tmd" -> T.mon \o T.mday
    [] t = "Tym" -> Year(T) \o T.mon
    [] t = "Tymd" -> Year(T) \o T.mon \o T.mday
    [] t = "Ttp" -> LET secs == Or(Hour(T), 0) * 3600 + Or(T.min, 0) * 60 + Or(T.sec, 0) IN
                    <<EpochDay(Or(Year(T), 1900), Or(T.mon, 1), Or(T.mday, 0)) + secs \div 86400, secs % 86400>>

ReadChrono(t, d, s, i0, e, w) ==
  LET i == SkipWs(s, i0, e, w)
      r == ChrWalk(ChrExpand(d), 1, s, i, e, w, NoTime)
  IN IF i >= e THEN Fail(EOI)
     ELSE IF r.e # OK THEN r
     ELSE IF t = "Ttp" /\ (r.v.tz # <<>> \/ r.v.zn # <<>> \/ r.v.wday # <<>> \/ r.v.yday # <<>>) THEN Fail(ISV)
     ELSE Got(r.i, ChrValue(t, r.v))

\* A part of a second is less than a second, even when it would be rounded to one
JustBelowOne == <<1, 0, 1, 53>> \o <<991, 5474, 1992, 9007>>
One == <<1, 0, 1, 52, 496, 2737, 5996, 4503>>
SubMatches(want, got) ==
  IF want = <<>> THEN got = <<>>
  ELSE /\ Len(got) = 1
       /\ IF FloatMatches("f64", want[1], One) THEN got[1] = JustBelowOne ELSE FloatMatches("f64", want[1], got[1])
ChrMatches(t, want, got) ==
  IF t = "Tdt" THEN Len(got) = 11 /\ SubMatches(want[1], got[1]) /\ Tail(want) = Tail(got)
  ELSE want = got
=============================================================================
