-------------------------------- MODULE Fmt ---------------------------------
(* The format-string language: from a format string and the argument types to
   the sequence of directives the scanner carries out, one at a time.

   Directives:
     [k |-> "ws"]              skip any amount of whitespace
     [k |-> "lit", c |-> us]   match these units (one code point) exactly
     [k |-> "field", id, sp]   read argument id (0-based) as sp says
     [k |-> "bad"]             the format string is malformed from here on      *)
EXTENDS ChronoFmt

IntMax == 2147483647

\* <<position after the digits, value>>; value -1 when it exceeds an int
RECURSIVE DigitRun(_, _, _, _)
DigitRun(f, i, e, v) ==
  IF i >= e \/ ~IsDigit(f[i]) THEN <<i, v>>
  ELSE DigitRun(f, i + 1, e,
         IF v < 0 \/ v > IntMax \div 10 THEN -1
         ELSE IF v * 10 > IntMax - (f[i] - 48) THEN -1
         ELSE v * 10 + (f[i] - 48))

\* What a locale says about numbers and booleans: decimal point, thousands separator
\* (-1: none), names of true and false.  Only used where the format says L.
TTrue == <<116, 114, 117, 101>>
TFalse == <<102, 97, 108, 115, 101>>
Classic == [dp |-> 46, ts |-> -1, tn |-> TTrue, fn |-> TFalse]
NoSpec == [al |-> 0, fill |-> <<32>>, w |-> 0, p |-> 0, L |-> FALSE, ty |-> 0,
           inv |-> FALSE, set |-> <<>>, re |-> <<>>, fl |-> {}, loc |-> Classic]

AlignOf(u) == IF u = 60 THEN 1 ELSE IF u = 62 THEN 2 ELSE IF u = 94 THEN 3 ELSE 0

SpecBad == [ok |-> FALSE, j |-> 0, sp |-> NoSpec]

(* --- [character set] : from the unit after the opening bracket ----------- *)
RECURSIVE SetItems(_, _, _, _, _)
SetItems(f, i, e, w, acc) ==
  IF i >= e THEN [ok |-> FALSE, j |-> 0, r |-> <<>>]
  ELSE IF f[i] = 93 THEN [ok |-> TRUE, j |-> i + 1, r |-> acc]
  ELSE LET d == Dec(f, i, e, w)
           k == i + d[2]
       IN IF d[1] < 0 THEN [ok |-> FALSE, j |-> 0, r |-> <<>>]
          ELSE IF k + 1 < e /\ f[k] = 45 /\ f[k+1] # 93
          THEN LET d2 == Dec(f, k + 1, e, w)
               IN IF d2[1] < d[1] THEN [ok |-> FALSE, j |-> 0, r |-> <<>>]
                  ELSE SetItems(f, k + 1 + d2[2], e, w,
                                Append(acc, <<d[1], d2[1]>>))
          ELSE SetItems(f, k, e, w, Append(acc, <<d[1], d[1]>>))

ParseSet(f, i, e, w, sp) ==
  LET inv == i < e /\ f[i] = 94
      i1  == IF inv THEN i + 1 ELSE i
      brk == inv /\ i1 < e /\ f[i1] = 93
      r   == IF brk THEN SetItems(f, i1 + 1, e, w, << <<93, 93>> >>)
             ELSE SetItems(f, i1, e, w, <<>>)
  IN IF r.ok /\ (inv \/ r.r # <<>>)
     THEN [ok |-> TRUE, j |-> r.j,
           sp |-> [sp EXCEPT !.ty = 91, !.inv = inv, !.set = r.r]]
     ELSE SpecBad

(* --- /regular expression/flags : from the unit after the opening slash ---- *)
RECURSIVE ReEnd(_, _, _)
ReEnd(f, i, e) == IF i >= e THEN 0
                  ELSE IF f[i] = 47 /\ f[i-1] # 92 THEN i ELSE ReEnd(f, i + 1, e)
RECURSIVE ReFlags(_, _, _, _)
ReFlags(f, i, e, acc) ==
  IF i >= e THEN [ok |-> FALSE, j |-> 0, fl |-> {}]
  ELSE IF f[i] = 125 THEN [ok |-> TRUE, j |-> i, fl |-> acc]
  ELSE IF f[i] \in {109, 105, 110} /\ f[i] \notin acc
       THEN ReFlags(f, i + 1, e, acc \cup {f[i]})
       ELSE [ok |-> FALSE, j |-> 0, fl |-> {}]
ParseRe(f, i, e, sp) ==
  LET z == ReEnd(f, i, e) IN
  IF z = 0 \/ z = i THEN SpecBad
  ELSE LET g == ReFlags(f, z + 1, e, {}) IN
       IF ~g.ok THEN SpecBad
       ELSE [ok |-> TRUE, j |-> g.j,
             sp |-> [sp EXCEPT !.ty = 47, !.re = SubSeq(f, i, z - 1), !.fl = g.fl]]

\* b B d i u o x X r R a A e E f F g G s c ? p
TypeChars == {98, 66, 100, 105, 117, 111, 120, 88, 114, 82, 97, 65, 101, 69,
              102, 70, 103, 71, 115, 99, 63, 112}

ParseType(f, i, e, w, sp) ==
  IF i >= e THEN SpecBad
  ELSE IF f[i] = 125 THEN [ok |-> TRUE, j |-> i, sp |-> sp]
  ELSE IF f[i] = 91 THEN ParseSet(f, i + 1, e, w, sp)
  ELSE IF f[i] = 47 THEN ParseRe(f, i + 1, e, sp)
  ELSE IF f[i] \in TypeChars
       THEN [ok |-> TRUE, j |-> i + 1, sp |-> [sp EXCEPT !.ty = Lower(f[i])]]
  ELSE SpecBad

ParseL(f, i, e, w, sp) ==
  IF i < e /\ f[i] = 76 THEN ParseType(f, i + 1, e, w, [sp EXCEPT !.L = TRUE])
  ELSE ParseType(f, i, e, w, sp)

ParsePrec(f, i, e, w, sp) ==
  IF i < e /\ f[i] = 46
  THEN IF i + 1 < e /\ IsDigit(f[i+1])
       THEN LET d == DigitRun(f, i + 1, e, 0) IN
            \* a maximum smaller than the minimum can never be satisfied
            IF d[2] < 0 \/ d[2] < sp.w THEN SpecBad
            ELSE ParseL(f, d[1], e, w, [sp EXCEPT !.p = d[2]])
       ELSE ParseL(f, i + 1, e, w, sp)
  ELSE ParseL(f, i, e, w, sp)

ParseWidth(f, i, e, w, sp) ==
  IF i < e /\ IsDigit(f[i])
  THEN LET d == DigitRun(f, i, e, 0) IN
       IF d[2] < 0 THEN SpecBad
       ELSE ParsePrec(f, d[1], e, w, [sp EXCEPT !.w = d[2]])
  ELSE ParsePrec(f, i, e, w, sp)

\* The specification after the colon, up to but not including the closing brace
ParseSpec(f, i, e, w) ==
  IF i >= e THEN SpecBad
  ELSE IF i + 1 < e /\ f[i+1] = 125 /\ f[i] \in TypeChars /\ f[i] # 63
       THEN ParseType(f, i, e, w, NoSpec)
  ELSE LET d == Dec(f, i, e, w)
           k == i + d[2]
           a0 == AlignOf(f[i])
           a1 == IF k < e THEN AlignOf(f[k]) ELSE 0
       IN IF d[1] < 0 THEN SpecBad
          ELSE IF k >= e THEN ParseWidth(f, i, e, w, NoSpec)
          ELSE IF f[i] = 123 THEN SpecBad
          ELSE IF f[i] \in {91, 125} THEN ParseWidth(f, i, e, w, NoSpec)
          ELSE IF a1 # 0
               THEN ParseWidth(f, k + 1, e, w,
                      [NoSpec EXCEPT !.al = a1, !.fill = SubSeq(f, i, k - 1)])
          ELSE IF a0 # 0 THEN ParseWidth(f, k, e, w, [NoSpec EXCEPT !.al = a0])
          ELSE ParseWidth(f, i, e, w, NoSpec)

(* --- argument types ------------------------------------------------------- *)
SInts == {"i8", "i16", "i32", "il", "i64"}
UInts == {"u8", "u16", "u32", "ul", "u64"}
Floats == {"f32", "f64", "f80"}
Strings == {"str", "wstr", "sv"}
Chars == {"ch", "wc"}

\* Types scanned by code of the user or of ranges.h.  SpecType: the type whose
\* specification they take; the others take none
Custom == {"Cpt", "Ckv", "Cnest", "Ctwo", "Ccount", "Cdigits", "Cwrap", "Cpoint", "Cspaced",
           "Cdiscard", "Cdiscards", "Rvec", "Rset", "Rmap", "Rpair", "Rtup", "Rvstr",
           "Rvpair", "Rvv", "Rmv", "Rsstr", "Rtv", "Rvpt",
           "Rarr", "Rface", "Rcap", "Rpre", "Rpreset", "Rpremap"}
SpecType(t) == IF t \in {"Cwrap", "Cdiscard", "Rvec", "Rset", "Rvv", "Rarr", "Rcap", "Rpre", "Rpreset"} THEN "i32"
               ELSE IF t \in {"Cdiscards", "Rvstr", "Rsstr"} THEN "str"
               ELSE "none"

\* May a value of this type be read with this specification, from a source of
\* this kind (contiguous: one block of memory that outlives the scan)?
Suits(t0, sp, contiguous) ==
  LET t == IF t0 \in Custom THEN SpecType(t0) ELSE t0 IN
  IF t \in Chronos THEN sp.ty = 37 ELSE
  IF t = "none" THEN sp = NoSpec ELSE
  /\ sp.L => t \in SInts \cup UInts \cup Floats \cup {"bool"}
  /\ CASE t \in SInts \cup UInts ->
            sp.ty \in {0, 98, 100, 105, 117, 111, 120} /\ ~(sp.L /\ sp.ty = 98)
       [] t \in Chars -> sp.ty \in {0, 99, 98, 100, 105, 117, 111, 120}
       [] t = "cp" -> sp.ty \in {0, 99}
       [] t \in Floats -> sp.ty \in {0, 97, 101, 102, 103}
       [] t \in Strings ->
            /\ sp.ty \in {0, 115, 91, 47, 99}
            /\ sp.ty = 99 => sp.p # 0
            /\ t = "sv" => contiguous
            /\ sp.ty = 47 => contiguous
       [] t = "ptr" -> sp.ty \in {0, 112}
       [] t = "bool" -> sp.ty \in {0, 115, 105, 120, 98, 117, 111, 100}
       [] t \in {"rx", "rxb"} -> sp.ty = 47 /\ contiguous
       [] OTHER -> FALSE

(* --- the whole format string ------------------------------------------------ *)
\* [next: next automatic id, mode: 0 unknown 1 automatic 2 manual, seen: ids]
\* <<position of } or :, explicit id or -1 for automatic>> ; position 0: malformed
ArgId(f, i, e) ==
  IF i >= e THEN <<0, 0>>
  ELSE IF f[i] \in {125, 58} THEN <<i, -1>>
  ELSE IF f[i] = 48
       THEN IF i + 1 < e /\ f[i+1] \in {125, 58} THEN <<i + 1, 0>> ELSE <<0, 0>>
  ELSE IF IsDigit(f[i])
       THEN LET d == DigitRun(f, i, e, 0) IN
            IF d[2] >= 0 /\ d[1] < e /\ f[d[1]] \in {125, 58} THEN <<d[1], d[2]>>
            ELSE <<0, 0>>
  ELSE <<0, 0>>

Bad == [k |-> "bad"]

\* Dates and times have specifications of their own, and always need one
ParseChrono(f, i, e, w, t) ==
  LET j == IF f[i] = 58 /\ i + 1 < e /\ f[i + 1] = 76 THEN i + 2 ELSE i + 1 IN
  IF f[i] # 58 \/ j >= e \/ f[j] # 37 THEN SpecBad
  ELSE LET c == ChrTokens(f, j, e, w, <<>>) IN
       IF c.ok /\ ChrSuits(t, c.d)
       THEN [ok |-> TRUE, j |-> c.j, sp |-> [NoSpec EXCEPT !.ty = 37, !.set = c.d]]
       ELSE SpecBad

RECURSIVE PF(_, _, _, _, _, _, _)
PF(f, i, w, types, contiguous, st, acc) ==
  LET e == Len(f) + 1 IN
  IF i >= e
  THEN IF st.seen = 0..(Len(types) - 1) THEN acc ELSE Append(acc, Bad)
  ELSE IF f[i] = 125
  THEN IF i + 1 < e /\ f[i+1] = 125
       THEN PF(f, i + 2, w, types, contiguous, st,
               Append(acc, [k |-> "lit", c |-> <<125>>]))
       ELSE Append(acc, Bad)
  ELSE IF f[i] = 123
  THEN IF i + 1 < e /\ f[i+1] = 123
       THEN PF(f, i + 2, w, types, contiguous, st,
               Append(acc, [k |-> "lit", c |-> <<123>>]))
       ELSE
       LET a  == ArgId(f, i + 1, e)
           md == IF a[2] < 0 THEN 1 ELSE 2
           id == IF a[2] < 0 THEN st.next ELSE a[2]
       IN IF \/ a[1] = 0
             \/ (st.mode # 0 /\ st.mode # md)
             \/ id >= Len(types)
             \/ id \in st.seen
          THEN Append(acc, Bad)
          ELSE LET sp == IF types[id + 1] \in Chronos THEN ParseChrono(f, a[1], e, w, types[id + 1])
                         ELSE IF f[a[1]] = 58
                         THEN IF types[id + 1] \in Custom /\ SpecType(types[id + 1]) = "none"
                              THEN [ok |-> TRUE, j |-> a[1] + 1, sp |-> NoSpec]
                              ELSE ParseSpec(f, a[1] + 1, e, w)
                         ELSE [ok |-> TRUE, j |-> a[1], sp |-> NoSpec]
               IN IF \/ ~sp.ok
                     \/ sp.j >= e
                     \/ f[sp.j] # 125
                     \/ ~Suits(types[id + 1], sp.sp, contiguous)
                  THEN Append(acc, Bad)
                  ELSE PF(f, sp.j + 1, w, types, contiguous,
                          [next |-> IF md = 1 THEN st.next + 1 ELSE st.next,
                           mode |-> md, seen |-> st.seen \cup {id}],
                          Append(acc, [k |-> "field", id |-> id, sp |-> sp.sp]))
  ELSE LET d == Dec(f, i, e, w) IN
       IF d[1] < 0 THEN Append(acc, Bad)
       ELSE IF IsWs(d[1])
       THEN PF(f, SkipWs(f, i, e, w), w, types, contiguous, st,
               Append(acc, [k |-> "ws"]))
       ELSE PF(f, i + d[2], w, types, contiguous, st,
               Append(acc, [k |-> "lit", c |-> SubSeq(f, i, i + d[2] - 1)]))

\* The directives of format string f for these argument types
Items(f, w, types, contiguous) ==
  PF(f, 1, w, types, contiguous, [next |-> 0, mode |-> 0, seen |-> {}], <<>>)

Malformed(items) == \E k \in DOMAIN items : items[k].k = "bad"
=============================================================================
