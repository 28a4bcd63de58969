--------------------------------- MODULE MC ---------------------------------
(* Model checking of the scanner's specification.

   A behaviour picks a case (format string, argument types, width of a unit), lets
   the source grow unit by unit over an alphabet, and at any point scans it, one
   directive per step.  The invariants are the guarantees stated independently of
   how the readers are written.                                                *)
EXTENDS Scan, Laws

CONSTANTS Group, MaxLen

U(str) == [k \in 1..Len(str) |-> str[k]]

\* A case: [f format, t types, w unit width, a alphabet, split position in f or 0]
C(f, t, a) == [f |-> f, t |-> t, w |-> 8, a |-> a, cut |-> 0, loc |-> Classic]
CC(f, cut, t, a) == [f |-> f, t |-> t, w |-> 8, a |-> a, cut |-> cut, loc |-> Classic]
W(f, t, a) == [f |-> f, t |-> t, w |-> 32, a |-> a, cut |-> 0, loc |-> Classic]
CL(f, t, a, l) == [f |-> f, t |-> t, w |-> 8, a |-> a, cut |-> 0, loc |-> l]
LUs == [Classic EXCEPT !.ts = 44]
LDe == [Classic EXCEPT !.ts = 46, !.dp = 44]
LNo == [Classic EXCEPT !.dp = 44]
LNm == [Classic EXCEPT !.tn = <<97>>, !.fn = <<97, 98>>]
\* {} {:d} ...: units of "{" , "}" and ":" around a specification
Fld(sp) == IF sp = <<>> THEN <<123, 125>> ELSE <<123, 58>> \o sp \o <<125>>

\* alphabets
Anum == {48, 49, 55, 45, 120, 32}              \* 0 1 7 - x space
Anum2 == {48, 49, 56, 57, 98, 111, 43}         \* 0 1 8 9 b o +
Aflt == {48, 53, 46, 101, 45, 32}              \* 0 5 . e - space
Ahex == {48, 49, 120, 46, 112, 97}             \* 0 1 x . p a
Anam == {105, 110, 102, 97, 40, 41}            \* i n f a ( )
Atxt == {97, 98, 93, 32, 10}                   \* a b ] space newline
Autf == {97, 32, 195, 164, 227, 129, 130}      \* a space 0xC3 0xA4 0xE3 0x81 0x82
Afil == {42, 49, 97, 32, 227, 129, 130}        \* * 1 a space and a wide character
Afil2 == {42, 49, 97, 32}
Abool == {116, 114, 117, 101, 48, 49}          \* t r u e 0 1

Cases ==
  CASE Group = "ints" ->
         { C(Fld(sp), <<t>>, a) : sp \in {<<>>, <<105>>, <<120>>, <<98>>, <<111>>, <<117>>},
                                  t \in {"i8", "u8"}, a \in {Anum, Anum2} }
    [] Group = "floats" ->
         { C(Fld(sp), <<"f32">>, a) : sp \in {<<>>, <<101>>, <<102>>, <<97>>},
                                      a \in {Aflt, Ahex, Anam} }
    [] Group = "strings" ->
         { C(Fld(sp), <<"str">>, a) :
             sp \in {<<>>, <<91, 97, 45, 98, 93>>, <<91, 94, 97, 93>>, <<91, 94, 93, 93>>,
                     <<46, 50, 99>>, <<46, 50>>}, a \in {Atxt, Autf} }
         \cup { C(Fld(<<>>), <<t>>, Autf) : t \in {"wstr", "cp", "wc", "ch"} }
    [] Group = "widths" ->
         { C(Fld(sp), <<t>>, a) :
             sp \in {<<42, 60, 51>>, <<42, 62, 51>>, <<42, 94, 46, 51>>, <<51>>, <<46, 51>>,
                     <<42, 94, 50, 46, 51>>, <<62, 50>>},
             t \in {"i32", "str", "cp"}, a \in {Afil} }
    [] Group = "formats" ->
         { CC(<<123, 125, 32, 123, 125>>, 3, <<"i32", "str">>, {49, 97, 32, 44}),
           CC(<<123, 125, 44, 123, 125>>, 2, <<"i32", "i32">>, {49, 45, 32, 44}),
           CC(<<123, 125, 123, 125>>, 2, <<"i32", "cp">>, {49, 45, 32, 44}),
           CC(<<32, 97, 123, 125, 32, 123, 123>>, 2, <<"str">>, {97, 123, 32, 10}),
           CC(<<123, 125, 227, 129, 130, 123, 125>>, 2, <<"cp", "cp">>, Autf),
           C(<<123, 49, 125, 123, 48, 125>>, <<"i32", "str">>, {49, 97, 32, 44}),
           C(<<123, 125, 123, 48, 125>>, <<"i32", "str">>, {49, 97, 32}),
           C(<<123, 125>>, <<"i32", "str">>, {49, 97, 32}),
           C(<<123, 125, 123, 125, 123, 125>>, <<"i32", "str">>, {49, 97, 32}) }
    [] Group = "scalars" ->
         { C(Fld(<<>>), <<"bool">>, Abool), C(Fld(<<115>>), <<"bool">>, Abool),
           C(Fld(<<100>>), <<"bool">>, Abool), C(Fld(<<>>), <<"ptr">>, Anum),
           C(Fld(<<>>), <<"cp">>, Autf), C(Fld(<<99>>), <<"ch">>, Atxt),
           C(Fld(<<100>>), <<"ch">>, Anum), C(Fld(<<120>>), <<"wc">>, Anum),
           W(Fld(<<>>), <<"wc">>, {97, 32, 228, 128512}) }
    [] Group = "customs" ->
         { C(Fld(<<>>), <<"Cpt">>, {40, 49, 44, 41, 32}), C(Fld(<<>>), <<"Ctwo">>, {49, 97, 32, 45}),
           C(Fld(<<>>), <<"Cspaced">>, {97, 45, 62, 32}), C(Fld(<<>>), <<"Cnest">>, {60, 124, 40, 49, 44, 41, 62}),
           C(Fld(<<>>), <<"Rvec">>, {91, 93, 44, 49, 32}), C(Fld(<<120>>), <<"Rvec">>, {91, 93, 44, 97, 32}),
           C(Fld(<<>>), <<"Rmap">>, {123, 125, 58, 44, 49}), C(Fld(<<>>), <<"Rpair">>, {40, 41, 44, 49, 32}),
           C(Fld(<<>>), <<"Rarr">>, {60, 62, 61, 49}), C(Fld(<<>>), <<"Rface">>, {40, 58, 45, 49, 41}),
           C(Fld(<<>>), <<"Rcap">>, {91, 93, 44, 49}), C(Fld(<<>>), <<"Rpre">>, {91, 93, 44, 49}), C(Fld(<<>>), <<"Rvv">>, {91, 93, 44, 49}), C(Fld(<<>>), <<"Ccount">>, {48, 50, 49, 32}) }
    [] Group = "chrono" ->
         LET spec(x) == {C(Fld(x.f), <<x.t>>, x.a)} IN
         UNION { spec(x) : x \in {
           [f |-> <<37, 72, 58, 37, 77>>, t |-> "Tdt", a |-> {48, 50, 53, 58, 32}],             \* H:M
           [f |-> <<37, 82>>, t |-> "Ttm", a |-> {48, 50, 54, 58, 32}],                         \* R
           [f |-> <<37, 73, 37, 112>>, t |-> "Tdt", a |-> {49, 50, 97, 80, 109, 46}],           \* Ip
           [f |-> <<37, 98>>, t |-> "Tmon", a |-> {109, 97, 114, 99, 104, 121, 77}],            \* b
           [f |-> <<37, 106>>, t |-> "Tdt", a |-> {48, 51, 54, 55, 32}],                        \* j
           [f |-> <<37, 122>>, t |-> "Ttz", a |-> {43, 45, 48, 49, 58}],                        \* z
           [f |-> <<37, 69, 122>>, t |-> "Tdt", a |-> {43, 45, 48, 49, 58}],                    \* Ez
           [f |-> <<37, 67, 37, 121>>, t |-> "Tyear", a |-> {48, 49, 54, 57}],                  \* Cy
           [f |-> <<37, 121, 32, 37, 109>>, t |-> "Tym", a |-> {48, 49, 54, 57, 32}],           \* y m
           [f |-> <<37, 46, 83>>, t |-> "Tdt", a |-> {48, 54, 46, 57, 32}],                     \* .S
           [f |-> <<37, 100, 37, 109>>, t |-> "Tmd", a |-> {48, 49, 50, 51, 32}],               \* dm
           [f |-> <<37, 100, 37, 100>>, t |-> "Tday", a |-> {49}],                              \* dd: malformed
           [f |-> <<37, 90>>, t |-> "Ttm", a |-> {85}] } }                                      \* Z: not in tm
    [] Group = "locales" ->
         { CL(Fld(sp), <<"i8">>, {48, 49, 55, 44, 46, 45}, l) :
             sp \in {<<76>>, <<76, 105>>, <<76, 120>>, <<>>}, l \in {LUs, LDe, LNo} }
         \cup { CL(Fld(sp), <<"f32">>, {48, 53, 44, 46, 101, 45}, l) :
             sp \in {<<76>>, <<76, 101>>, <<76, 102>>, <<76, 97>>, <<>>}, l \in {LUs, LDe, LNo} }
         \cup { CL(Fld(sp), <<"bool">>, {97, 98, 48, 49, 32}, LNm) : sp \in {<<76>>, <<76, 115>>, <<76, 100>>} }
         \cup { CL(Fld(<<76>>), <<"Cwrap">>, {48, 49, 44, 46, 32}, LDe) }
    [] Group = "regex" ->
         { C(Fld(f), <<t>>, {97, 98, 99, 32}) : t \in {"rx", "str"}, f \in {
             <<47, 97, 42, 98, 47>>,
             <<47, 40, 97, 124, 97, 98, 41, 40, 99, 124, 98, 41, 63, 47>>,
             <<47, 40, 97, 43, 63, 41, 98, 42, 47>>,
             <<47, 91, 97, 98, 93, 43, 63, 36, 47>>,
             <<47, 40, 63, 58, 97, 98, 124, 97, 41, 42, 40, 98, 41, 63, 47>>,
             <<47, 40, 40, 97, 41, 124, 98, 41, 43, 99, 63, 47>>,
             <<47, 97, 40, 63, 61, 98, 41, 47>>,
             <<47, 40, 97, 42, 41, 42, 47>>,
             <<47, 97, 123, 49, 44, 50, 125, 91, 94, 98, 93, 47>>,
             <<47, 40, 94, 97, 124, 98, 41, 43, 99, 47>>,
             <<47, 97, 63, 63, 98, 63, 47>>,
             <<47, 97, 123, 50, 125, 40, 47>>,
             <<47, 65, 91, 94, 67, 93, 98, 42, 47, 105>>,
             <<47, 40, 98, 41, 124, 40, 97, 41, 40, 63, 33, 99, 41, 47, 110>>,
             <<47, 97, 123, 50, 44, 51, 125, 63, 47>>,
             <<47, 40, 97, 41, 40, 98, 41, 63, 40, 99, 41, 63, 47>>,
             <<47, 97, 36, 47, 109>>,
             <<47, 46, 43, 63, 47>>,
             <<47, 40, 63, 58, 97, 124, 98, 124, 97, 98, 41, 42, 99, 47>> } }
         \cup { C(Fld(f), <<"rx">>, {97, 65, 98, 66, 10}) : f \in {<<47, 97, 36, 47, 109>>, <<47, 40, 65, 41, 91, 94, 98, 93, 42, 47, 105>>, <<47, 40, 46, 42, 41, 66, 47>>} }

VARIABLES case, src, ph, st
vars == <<case, src, ph, st>>

Its == InLocale(case.loc, Items(case.f, case.w, case.t, TRUE))
Valid == ValidText(src, case.w)

Init == /\ case \in Cases /\ src = <<>> /\ ph = "input"
        /\ st = Start(Len(case.t))

Feed == /\ ph = "input" /\ Len(src) < MaxLen
        /\ \E u \in case.a : src' = Append(src, u)
        /\ UNCHANGED <<case, ph, st>>

Go == /\ ph = "input" /\ ph' = "scan" /\ Valid
      /\ UNCHANGED <<case, src, st>>

Scan1 == /\ ph = "scan"
         /\ IF Running(st, Its)
            THEN st' = Step(st, Its, case.t, src, case.w) /\ ph' = ph
            ELSE st' = st /\ ph' = "done"
         /\ UNCHANGED <<case, src>>

Next == Feed \/ Go \/ Scan1
Spec == Init /\ [][Next]_vars

Done == ph = "done"
Good == Done /\ st.err = OK

(* ------------------------------------------------------------ invariants -- *)
\* C01: never outside the source; every argument read on success, and no other way
InBounds == st.pos >= 1 /\ st.pos <= Len(src) + 1 /\ st.err \in 0..12
AllRead == Good => \A k \in DOMAIN st.vals : st.vals[k] # <<>> \/ case.t[k] \in {"str", "wstr"} \cup Custom
WellFormedOnly == Good => ~Malformed(Its)
Forward == [][st.pos' >= st.pos]_vars
\* values only ever go from unread to read
Stable == [][\A k \in DOMAIN st.vals : st.vals[k] # <<>> => st'.vals[k] = st.vals[k]]_vars

\* C01/C02: bounded lookahead. Success with more than L unread units does not
\* depend on what follows them
Lookahead == CASE Group = "floats" -> 5 [] Group = "chrono" -> 9 [] Group = "scalars" -> 4 [] OTHER -> 2
Local == Good /\ Len(src) - (st.pos - 1) >= Lookahead =>
   LET cut == SubSeq(src, 1, st.pos - 1 + Lookahead) IN
   ValidText(cut, case.w) =>
     LET r == RunFrom(Start(Len(case.t)), Its, case.t, cut, case.w)
     IN r.err = OK /\ r.pos = st.pos /\ r.vals = st.vals

\* C04: scanning with the two halves of a format string, one after the other
SubTypes(f) == LET n == Cardinality({k \in 1..(Len(f) - 1) : f[k] = 123 /\ f[k+1] \in {125, 58}})
               IN n
Compose == Done /\ case.cut > 0 =>
   LET f1 == SubSeq(case.f, 1, case.cut)
       f2 == SubSeq(case.f, case.cut + 1, Len(case.f))
       n1 == SubTypes(f1)
       t1 == SubSeq(case.t, 1, n1)
       t2 == SubSeq(case.t, n1 + 1, Len(case.t))
       r1 == Run(f1, t1, src, case.w, TRUE)
       r2 == Run(f2, t2, SubSeq(src, r1.pos, Len(src)), case.w, TRUE)
   IN IF r1.err # OK THEN st.err = r1.err
      ELSE IF r2.err # OK THEN st.err = r2.err
      ELSE Good /\ st.pos = r1.pos + r2.pos - 1 /\ st.vals = r1.vals \o r2.vals

\* C06: more whitespace where the format has whitespace changes nothing but the position
WsSlack == Good /\ Group = "formats" /\ Len(src) < MaxLen =>
   \A p \in 1..Len(src) : (src[p] = 32 /\ \E k \in DOMAIN Its : Its[k].k = "ws") =>
      LET s2 == SubSeq(src, 1, p) \o <<32>> \o SubSeq(src, p + 1, Len(src))
          r == RunFrom(Start(Len(case.t)), Its, case.t, s2, case.w)
      IN (r.err = OK => r.vals = st.vals \/ \E j \in DOMAIN case.t : case.t[j] = "cp")

Fin == [e |-> st.err, i |-> st.pos, v |-> IF Len(st.vals) = 1 THEN st.vals[1] ELSE <<>>]
Sp == Its[1].sp

IntLaw == Done /\ Group = "ints" => IntsLaw(case.t[1], Sp, src, Fin)
FloatLaw == Done /\ Group = "floats" => FloatsLaw(case.t[1], Sp, src, Fin)
TextLaw == Done /\ Group = "strings" /\ case.t[1] = "str" => StringsLaw(Sp, src, Fin, case.w)
CodecLaw == Good /\ Group = "strings" /\ case.t[1] \in {"wstr", "cp"} =>
   LET sub == SubSeq(src, 1, st.pos - 1)
   IN \E k \in 1..Len(sub) :
        Transcode(st.vals[1], 1, Len(st.vals[1]) + 1, 32, 8) = SubSeq(sub, k, Len(sub))
WidthLaw == Good /\ Group = "widths" =>
   LET wd == Width(src, 1, st.pos, case.w)
   IN wd >= Sp.w /\ (Sp.p > 0 => wd <= Sp.p)
FillLaw == Good /\ Group = "widths" /\ case.t[1] = "i32" /\ Sp.al # 0 =>
   \A k \in 1..(st.pos - 1) : src[k] \in {42, 49, 32} /\ (src[k] = 32 => Sp.fill = <<32>>)
\* A scanner made of nested scans reads what the formats in a row would
Flat(t) == CASE t = "Cpt" -> [f |-> <<40, 123, 125, 44, 123, 125, 41>>, t |-> <<"i32", "i32">>]
             [] t = "Ctwo" -> [f |-> <<123, 125, 32, 123, 125>>, t |-> <<"i32", "str">>]
             [] t = "Cnest" -> [f |-> <<60, 40, 123, 125, 44, 123, 125, 41, 124, 32, 40, 123, 125, 44, 123, 125, 41, 62>>,
                                t |-> <<"i32", "i32", "i32", "i32">>]
NestLaw == Done /\ Group = "customs" /\ case.t[1] \in {"Cpt", "Ctwo", "Cnest"} =>
   LET r == Run(Flat(case.t[1]).f, Flat(case.t[1]).t, src, 8, FALSE) IN
   /\ r.err = st.err
   /\ r.err = OK => /\ r.pos = st.pos
                     /\ r.vals = IF case.t[1] = "Cnest" THEN st.vals[1][1] \o st.vals[1][2] ELSE st.vals[1]
\* A sequence has one separator less than elements, inside of one pair of brackets
CountOf(c) == Cardinality({k \in 1..(st.pos - 1) : src[k] = c})
SeqLaw == Good /\ Group = "customs" /\ case.t[1] \in {"Rvec", "Rmap"} =>
   LET n == Len(st.vals[1])
       o == IF case.t[1] = "Rvec" THEN 91 ELSE 123
   IN /\ CountOf(44) = (IF n = 0 THEN 0 ELSE n - 1)
      /\ CountOf(o) = 1 /\ CountOf(o + 2) = 1
      /\ src[st.pos - 1] = o + 2 /\ src[FirstNonWs(src)] = o
      /\ case.t[1] = "Rmap" => CountOf(58) = n
CapLaw == Good /\ Group = "customs" /\ case.t[1] = "Rcap" =>
   LET r == Run(case.f, <<"Rvec">>, src, 8, FALSE) IN
   Len(st.vals[1]) <= 2 /\ r.err = OK /\ r.pos = st.pos /\ r.vals = st.vals
PreLaw == Good /\ Group = "customs" /\ case.t[1] = "Rpre" =>
   LET r == Run(case.f, <<"Rvec">>, src, 8, FALSE) IN
   r.err = OK /\ r.pos = st.pos /\ st.vals[1] = <<<<0, 7>>, <<0, 8>>>> \o r.vals[1]
ArrowLaw == Good /\ Group = "customs" /\ case.t[1] = "Rarr" =>
   LET n == Len(st.vals[1]) IN
   CountOf(61) = (IF n = 0 THEN 0 ELSE n - 1) /\ CountOf(60) = 2 /\ CountOf(62) = CountOf(61) + 2
\* Dates and times: fields in their ranges, and the text means what it says
ChrIs(f) == Good /\ Group = "chrono" /\ case.f = Fld(f)
Opt(x, lo, hi) == x = <<>> \/ (Len(x) = 1 /\ x[1] >= lo /\ x[1] <= hi)
ChrRanges == Good /\ Group = "chrono" =>
   LET v == st.vals[1] IN
   CASE case.t[1] = "Tdt" -> Opt(v[2], 0, 60) /\ Opt(v[3], 0, 59) /\ Opt(v[4], 0, 23) /\ Opt(v[5], 1, 31)
                             /\ Opt(v[6], 1, 12) /\ Opt(v[7], 0, 9999) /\ Opt(v[8], 0, 6) /\ Opt(v[9], 0, 365)
     [] case.t[1] = "Ttm" -> v[1] \in 0..60 /\ v[2] \in 0..59 /\ v[3] \in 0..23 /\ v[4] \in 0..31 /\ v[5] \in 0..11
     [] case.t[1] = "Tmon" -> v[1] \in 1..12
     [] case.t[1] = "Tmd" -> v[1] \in 1..12 /\ v[2] \in 1..31
     [] OTHER -> TRUE
DigitsOf(a, z) == Native(src, a, z, 10)
ChrLaw ==
   LET k == FirstNonWs(src)
       v == st.vals[1]
       colon == CHOOSE j \in k..(st.pos - 1) : src[j] = 58
   IN /\ ChrIs(<<37, 72, 58, 37, 77>>) =>
           v[4] = <<DigitsOf(k, colon)>> /\ v[3] = <<DigitsOf(colon + 1, st.pos)>>
      \* a composite is what it abbreviates
      /\ (Done /\ Group = "chrono" /\ case.f = Fld(<<37, 82>>)) =>
           LET r == Run(Fld(<<37, 72, 58, 37, 77>>), <<"Ttm">>, src, 8, TRUE) IN r = st
      /\ ChrIs(<<37, 73, 37, 112>>) =>
           LET p == CHOOSE j \in k..(st.pos - 1) : src[j] \in {97, 80}
               h == v[4][1]
           IN /\ h % 12 = DigitsOf(k, p) % 12
              /\ (h >= 12) = (src[p] = 80)
      /\ ChrIs(<<37, 98>>) => v[1] \in {3, 5} /\ (st.pos <= Len(src) => ~(v[1] = 3 /\ st.pos - k = 4))
      /\ ChrIs(<<37, 67, 37, 121>>) => st.pos = k + 4 /\ v[1] = DigitsOf(k, k + 4)
      /\ ChrIs(<<37, 121, 32, 37, 109>>) => v[1] \in 1969..2068 /\ v[1] % 100 = DigitsOf(k, k + 2)
      /\ ChrIs(<<37, 106>>) => v[9][1] + 1 = DigitsOf(k, st.pos)
      /\ ChrIs(<<37, 122>>) => (v[11] # <<>> /\ v[10] = v[11][1] * 60 /\ (v[11][1] < 0 => src[k] = 45))
      \* nothing else could have been meant by what was rejected
      /\ (Done /\ Group = "chrono" /\ case.f = Fld(<<37, 72, 58, 37, 77>>) /\ st.err # OK) =>
           ~\E c \in (k + 1)..(k + 2) : /\ c < Len(src) /\ src[c] = 58 /\ IsDigit(src[c + 1])
                                        /\ \A j \in k..(c - 1) : IsDigit(src[j])
                                        /\ DigitsOf(k, c) <= 23 /\ ~(c + 2 <= Len(src) /\ IsDigit(src[c + 2]))
      /\ (Done /\ Group = "chrono" /\ case.t[1] = "Tday") => st.err = IFS
\* The calendar
ASSUME /\ EpochDay(1970, 1, 1) = 0 /\ EpochDay(2000, 3, 1) = 11017 /\ EpochDay(1969, 12, 31) = -1
       /\ \A y \in 1890..2110 : EpochDay(y + 1, 1, 1) = EpochDay(y, 12, 31) + 1
       /\ \A y \in {1899, 1900, 1970, 2000, 2023, 2024, 2100} : \A m \in 1..11 :
            EpochDay(y, m + 1, 1) = EpochDay(y, m, MonthDays(y, m)) + 1
RxLaw == Done /\ Group = "regex" => RegexLaw(case.t[1], Sp, src, Fin)
\* A localized number is the classic one without separators and with a point; without
\* L, or where the text has neither, the locale makes no difference
Plain(s) == LET keep == SelectSeq(s, LAMBDA u : u # case.loc.ts)
            IN [k \in DOMAIN keep |-> IF keep[k] = case.loc.dp THEN 46 ELSE keep[k]]
LocLaw == Done /\ Group = "locales" =>
   LET own == Items(case.f, case.w, case.t, TRUE)
       classic(s) == RunFrom(Start(1), own, case.t, s, 8)
       num == case.t[1] # "bool"
          \* (a separator in front hides the prefix of the base)
       fst == IF src # <<>> /\ src[1] \in {43, 45} THEN 2 ELSE 1
       hidden == Sp.ty = 105 /\ fst <= Len(src) /\ src[fst] = case.loc.ts
   IN /\ (st.err = OK /\ num /\ Sp.L /\ ~hidden) =>
           LET c == classic(Plain(SubSeq(src, 1, st.pos - 1))) IN
           c.err = OK /\ c.vals = st.vals /\ c.pos = Len(Plain(SubSeq(src, 1, st.pos - 1))) + 1
      /\ (num /\ (~Sp.L \/ \A k \in DOMAIN src : src[k] \notin {case.loc.ts, case.loc.dp, 46})) => classic(src) = st
      /\ ~num => CASE Good /\ st.vals[1] = <<1>> -> src[st.pos - 1] \in {49, 97}
                    [] Good -> src[st.pos - 1] \in {48, 98}
                    [] OTHER -> TRUE
      /\ (~num /\ Good /\ st.pos <= Len(src) /\ src[st.pos] = 98) => src[st.pos - 1] # 97
BoolLaw == Good /\ case.t[1] = "bool" => st.vals[1] \in {<<0>>, <<1>>}
=============================================================================
