-------------------------------- MODULE Scan --------------------------------
(* The scanner as a state machine.  A scan walks the directives of the format
   string over the source, one directive per step:

     pos   next unit of the source
     it    next directive
     vals  values stored so far, one per argument (<<>>: not stored)
     err   OK while running

   The same step function drives the model-checking configurations (MC_*.tla)
   and the checking of behaviour recorded from the real code (Trace_*.tla).    *)
EXTENDS Chrono, Regex

\* The directives, in that locale
InLocale(loc, items) ==
  IF loc = Classic THEN items
  ELSE [k \in DOMAIN items |-> IF items[k].k = "field" THEN [items[k] EXCEPT !.sp.loc = loc] ELSE items[k]]

\* Readers that skip whitespace in front of the value
SkipsWs(t, sp) ==
  CASE t \in Strings -> sp.ty \in {0, 115}
    [] t \in Chars \cup {"cp"} -> FALSE
    [] OTHER -> TRUE

ReadValue(t, sp, s, i, e, w) ==
  CASE t \in SInts \cup UInts -> ReadInt(t, sp, s, i, e)
    [] t \in Floats -> ReadFloat(t, sp, s, i, e)
    [] t = "bool" -> ReadBool(sp, s, i, e)
    [] t = "ptr" -> ReadPtr(s, i, e)
    [] t = "cp" -> ReadCp(s, i, e, w)
    [] t \in Chars ->
         IF sp.ty \notin {0, 99} THEN ReadCharNum(t, sp, s, i, e)
         ELSE IF t = "ch" \/ w = 32 THEN ReadUnit(s, i, e)
         ELSE ReadCp(s, i, e, w)
    [] t \in {"rx", "rxb"} -> ReadRegex(t, sp, s, i, e, w)
    [] t \in Strings -> IF sp.ty = 47 THEN ReadRegexStr(t, sp, s, i, e, w)
                        ELSE ReadString(t, sp, s, i, e, w)

RECURSIVE SkipFill(_, _, _, _)
SkipFill(s, i, e, fill) ==
  IF At(s, i, e, fill) THEN SkipFill(s, i + Len(fill), e, fill) ELSE i

(* One replacement field: fill or whitespace, the value, fill; the whole at
   least sp.w and at most sp.p columns wide (0: no limit)                      *)
FieldWith(Read(_, _), skips, sp, s, i, e, w) ==
  LET lim == IF sp.p = 0 THEN e ELSE LimitEnd(s, i, e, w, sp.p)
      i1  == IF sp.al \in {2, 3} THEN SkipFill(s, i, lim, sp.fill)
             ELSE IF sp.al = 0 /\ skips THEN SkipWs(s, i, lim, w) ELSE i
      pw  == Width(s, i, i1, w)
  IN IF sp.al = 0 /\ skips /\ i1 >= lim THEN Fail(EOI)
     ELSE IF sp.p # 0 /\ sp.p <= pw THEN Fail(IFILL)
     ELSE
     LET e1 == IF sp.p = 0 THEN e ELSE LimitEnd(s, i1, e, w, sp.p - pw)
         r  == Read(i1, e1)
     IN IF r.e # OK THEN r
        ELSE
        LET used == pw + Width(s, i1, r.i, w)
            left == sp.p - used
            e2 == IF sp.p = 0 THEN e
                  ELSE IF left <= 0 THEN r.i ELSE LimitEnd(s, r.i, e, w, left)
            i2 == IF r.i >= e THEN r.i
                  ELSE IF sp.al \in {1, 3} THEN SkipFill(s, r.i, e2, sp.fill)
                  ELSE IF sp.al = 0 /\ ~skips /\ (used < sp.w \/ used < sp.p)
                  THEN SkipWs(s, r.i, e2, w)
                  ELSE r.i
            all == used + Width(s, r.i, i2, w)
        IN IF all < sp.w THEN Fail(LTS) ELSE Got(i2, r.v)

Field(t, sp, s, i, e, w) ==
  LET Read(a, b) == ReadValue(t, sp, s, a, b, w)
  IN FieldWith(Read, SkipsWs(t, sp), sp, s, i, e, w)

RECURSIVE RunFrom(_, _, _, _, _)
RECURSIVE ReadCustom(_, _, _, _, _, _)
RECURSIVE Elements(_, _, _, _, _, _, _, _, _, _)
RECURSIVE Members(_, _, _, _, _, _, _, _)
RECURSIVE Numbers(_, _, _, _, _, _)

(* ---------------------------------------------- scanners of the user's own -- *)
\* These characters after any whitespace; <<>>: only that something follows
Bracket(s, i, e, w, cs) ==
  LET k == SkipWs(s, i, e, w)
      Miss == {j \in 1..Len(cs) : k + j - 1 >= e \/ s[k + j - 1] # cs[j]}
  IN IF k >= e THEN Fail(EOI)
     ELSE IF Miss = {} THEN Got(k + Len(cs), <<>>)
     ELSE IF k + (CHOOSE j \in Miss : \A l \in Miss : j <= l) - 1 >= e THEN Fail(EOI) ELSE Fail(ISV)

\* The rest of [a, b, ...] after the opening bracket; cap: room for elements
Elements(t, sp, s, i, e, w, sep, close, cap, acc) ==
  LET z == Bracket(s, i, e, w, close) IN
  IF z.e = OK THEN Got(z.i, acc)
  ELSE IF Len(acc) = cap THEN z
  ELSE LET c == IF acc = <<>> THEN Got(i, <<>>) ELSE Bracket(s, i, e, w, sep) IN
       IF c.e # OK THEN c
       ELSE LET r == ReadCustom(t, sp, s, c.i, e, w) IN
            IF r.e # OK THEN r ELSE Elements(t, sp, s, r.i, e, w, sep, close, cap, Append(acc, r.v))

\* The members of a tuple, one of each type, with a separator between them
Members(ts, sep, s, i, e, w, k, acc) ==
  IF k > Len(ts) THEN Got(i, acc)
  ELSE LET c == IF k = 1 THEN Got(i, <<>>) ELSE Bracket(s, i, e, w, sep) IN
       IF c.e # OK THEN c
       ELSE LET r == ReadCustom(ts[k], NoSpec, s, c.i, e, w) IN
            IF r.e # OK THEN r ELSE Members(ts, sep, s, r.i, e, w, k + 1, Append(acc, r.v))

Listed(t, sp, s, i, e, w, open, sep, close, cap) ==
  LET o == Bracket(s, i, e, w, open) IN
  IF o.e # OK THEN o ELSE Elements(t, sp, s, o.i, e, w, sep, close, cap, <<>>)
Bracketed(t, sp, s, i, e, w, open, close) == Listed(t, sp, s, i, e, w, <<open>>, <<44>>, <<close>>, -1)
Tup(ts, s, i, e, w, open, sep, close) ==
  LET o == Bracket(s, i, e, w, open)
      m == Members(ts, sep, s, o.i, e, w, 1, <<>>)
      z == Bracket(s, m.i, e, w, close)
  IN IF o.e # OK THEN o ELSE IF m.e # OK THEN m
     ELSE IF z.e # OK THEN z ELSE Got(z.i, m.v)

Nested(f, ts, s, i, w) ==
  LET st == RunFrom([pos |-> i, it |-> 1, vals |-> [k \in 1..Len(ts) |-> <<>>], err |-> OK],
                    Items(f, w, ts, FALSE), ts, s, w)
  IN IF st.err = OK THEN Got(st.pos, st.vals) ELSE Fail(st.err)

\* n more numbers (at most five)
Numbers(n, s, i, e, w, acc) ==
  IF n = 0 \/ Len(acc) = 5 THEN Got(i, acc)
  ELSE LET r == Field("i32", NoSpec, s, i, e, w) IN
       IF r.e # OK THEN r ELSE Numbers(n - 1, s, r.i, e, w, Append(acc, r.v))

RECURSIVE DigitRunEnd(_, _, _)
DigitRunEnd(s, i, e) == IF i < e /\ IsDigit(s[i]) THEN DigitRunEnd(s, i + 1, e) ELSE i

SmallInt(v) == IF v[1] = 1 \/ Len(v) = 1 THEN 0 ELSE IF Len(v) > 2 THEN 9 ELSE v[2]

Onto(before, r) == IF r.e = OK THEN Got(r.i, before \o r.v) ELSE r

ReadCustom(t, sp, s, i, e, w) ==
  CASE t = "entry" -> Tup(<<"i32", "i32">>, s, i, e, w, <<>>, <<58>>, <<>>)
    [] t = "entryv" -> Tup(<<"i32", "Rvec">>, s, i, e, w, <<>>, <<58>>, <<>>)
    [] t \in Chronos -> ReadChrono(t, sp.set, s, i, e, w)
    [] t \notin Custom \cup Chronos \cup {"entry", "entryv"} -> Field(t, sp, s, i, e, w)
    [] t = "Cpt" -> Nested(<<40, 123, 125, 44, 123, 125, 41>>, <<"i32", "i32">>, s, i, w)
    [] t = "Ckv" -> Nested(<<123, 58, 91, 97, 45, 122, 93, 125, 61, 123, 125>>, <<"str", "i32">>, s, i, w)
    [] t = "Cnest" -> Nested(<<60, 123, 125, 124, 32, 123, 125, 62>>, <<"Cpt", "Cpt">>, s, i, w)
    [] t = "Ctwo" -> Nested(<<123, 125, 32, 123, 125>>, <<"i32", "str">>, s, i, w)
    [] t = "Cspaced" -> Nested(<<123, 58, 91, 97, 45, 122, 93, 125, 32, 45, 62, 32, 123, 58, 46, 51, 99, 125>>,
                               <<"str", "str">>, s, i, w)
    [] t = "Ccount" -> LET r == Field("i32", NoSpec, s, i, e, w) IN
                       IF r.e # OK THEN r ELSE Numbers(SmallInt(r.v), s, r.i, e, w, <<>>)
    [] t = "Cdigits" -> LET z == DigitRunEnd(s, i, e) IN Got(z, SubSeq(s, i, z - 1))
    [] t = "Cpoint" -> Got(i, <<sp.loc.dp>>)
    [] t = "Cwrap" -> Field("i32", sp, s, i, e, w)
    [] t = "Cdiscard" -> LET r == Field("i32", sp, s, i, e, w) IN IF r.e = OK THEN Got(r.i, <<>>) ELSE r
    [] t = "Cdiscards" -> LET r == Field("str", sp, s, i, e, w) IN IF r.e = OK THEN Got(r.i, <<>>) ELSE r
    [] t = "Rvec" -> Bracketed("i32", sp, s, i, e, w, 91, 93)
    [] t = "Rarr" -> Listed("i32", sp, s, i, e, w, <<60, 60>>, <<61, 62>>, <<62, 62>>, -1)
    [] t = "Rcap" -> Listed("i32", sp, s, i, e, w, <<91>>, <<44>>, <<93>>, 2)
    [] t = "Rface" -> Tup(<<"i32", "i32">>, s, i, e, w, <<40, 58>>, <<45, 45>>, <<58, 41>>)
    \* containers that have something in them before the scan keep it
    [] t = "Rpre" -> Onto(<<<<0, 7>>, <<0, 8>>>>, ReadCustom("Rvec", sp, s, i, e, w))
    [] t = "Rpreset" -> Onto(<<<<0, 1>>>>, ReadCustom("Rset", sp, s, i, e, w))
    [] t = "Rpremap" -> Onto(<<<<<<0, 1>>, <<0, 5>>>>>>, ReadCustom("Rmap", sp, s, i, e, w))
    [] t = "Rvstr" -> Bracketed("str", sp, s, i, e, w, 91, 93)
    [] t = "Rvv" -> Bracketed("Rvec", sp, s, i, e, w, 91, 93)
    [] t = "Rvpair" -> Bracketed("Rpair", NoSpec, s, i, e, w, 91, 93)
    [] t = "Rvpt" -> Bracketed("Cpt", NoSpec, s, i, e, w, 91, 93)
    [] t = "Rset" -> Bracketed("i32", sp, s, i, e, w, 123, 125)
    [] t = "Rsstr" -> Bracketed("str", sp, s, i, e, w, 123, 125)
    [] t = "Rmap" -> Bracketed("entry", NoSpec, s, i, e, w, 123, 125)
    [] t = "Rmv" -> Bracketed("entryv", NoSpec, s, i, e, w, 123, 125)
    [] t = "Rpair" -> Tup(<<"i32", "i32">>, s, i, e, w, <<40>>, <<44>>, <<41>>)
    [] t = "Rtup" -> Tup(<<"i32", "str", "i32">>, s, i, e, w, <<40>>, <<44>>, <<41>>)
    [] t = "Rtv" -> Tup(<<"Rvec", "i32">>, s, i, e, w, <<40>>, <<44>>, <<41>>)

(* ----------------------------------------------------------- the machine -- *)
Start(n) == [pos |-> 1, it |-> 1, vals |-> [k \in 1..n |-> <<>>], err |-> OK]

Running(st, items) == st.err = OK /\ st.it <= Len(items)

Step(st, items, types, s, w) ==
  LET e == Len(s) + 1
      d == items[st.it]
      nx == [st EXCEPT !.it = @ + 1]
  IN CASE d.k = "bad" -> [st EXCEPT !.err = IFS]
       [] d.k = "ws" -> IF st.pos >= e THEN [st EXCEPT !.err = ILIT]
                        ELSE [nx EXCEPT !.pos = SkipWs(s, st.pos, e, w)]
       [] d.k = "lit" -> IF At(s, st.pos, e, d.c)
                         THEN [nx EXCEPT !.pos = @ + Len(d.c)]
                         ELSE [st EXCEPT !.err = ILIT]
       [] d.k = "field" ->
            LET r == ReadCustom(types[d.id + 1], d.sp, s, st.pos, e, w) IN
            IF r.e # OK THEN [st EXCEPT !.err = r.e]
            ELSE [nx EXCEPT !.pos = r.i, !.vals[d.id + 1] = r.v]

RunFrom(st, items, types, s, w) ==
  IF Running(st, items)
  THEN RunFrom(Step(st, items, types, s, w), items, types, s, w) ELSE st

\* The final state of a scan of s with format f into values of these types
Run(f, types, s, w, contiguous) ==
  RunFrom(Start(Len(types)), Items(f, w, types, contiguous), types, s, w)
=============================================================================
