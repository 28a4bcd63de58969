------------------------------- MODULE Regex --------------------------------
(* Regular expressions: the part of their syntax and meaning the backends agree
   on.  A pattern is parsed to a tree and matched at one place, with the
   priorities of backtracking: alternatives from left to right, as many
   repetitions as possible (as few, with a ? after the quantifier).

   Nodes:  c   one unit, in a set of ranges (or not in it)
           any one unit that does not end a line
           seq alt rep grp (captured as group id; 0: not captured)
           bol eol look                                                       *)
EXTENDS Readers

RxBad == [ok |-> FALSE, j |-> 0, g |-> 0, n |-> [k |-> "seq", l |-> <<>>], nm |-> <<>>]
RxOk(j, g, n, nm) == [ok |-> TRUE, j |-> j, g |-> g, n |-> n, nm |-> nm]
One1(c) == [k |-> "c", inv |-> FALSE, r |-> << <<c, c>> >>]

DigitSet == << <<48, 57>> >>
WordSet == << <<48, 57>>, <<65, 90>>, <<95, 95>>, <<97, 122>> >>
SpaceSet == << <<9, 13>>, <<32, 32>> >>
\* \d \w \s, and with upper case what is not in them
NamedSet(c) == CASE Lower(c) = 100 -> DigitSet [] Lower(c) = 119 -> WordSet [] Lower(c) = 115 -> SpaceSet
Outside(c) == CASE c = 68 -> << <<0, 47>>, <<58, 1114111>> >>
                [] c = 87 -> << <<0, 47>>, <<58, 64>>, <<91, 94>>, <<96, 96>>, <<123, 1114111>> >>
                [] c = 83 -> << <<0, 8>>, <<14, 31>>, <<33, 1114111>> >>
IsNamed(c) == Lower(c) \in {100, 119, 115}
Punct == {47, 92, 46, 42, 43, 63, 40, 41, 91, 93, 123, 125, 124, 94, 36, 45}

\* [...] from the unit after [ (and ^): ranges, \d and the like, escapes
RECURSIVE RxSet(_, _, _)
RxSet(p, i, acc) ==
  IF i > Len(p) THEN [ok |-> FALSE, j |-> 0, r |-> <<>>]
  ELSE IF p[i] = 93 THEN [ok |-> TRUE, j |-> i + 1, r |-> acc]
  ELSE LET esc == p[i] = 92
           c == IF esc /\ i < Len(p) THEN p[i + 1] ELSE p[i]
           j == IF esc THEN i + 2 ELSE i + 1
       IN IF esc /\ i = Len(p) THEN [ok |-> FALSE, j |-> 0, r |-> <<>>]
          ELSE IF esc /\ IsNamed(c) THEN RxSet(p, j, acc \o (IF c < 97 THEN Outside(c) ELSE NamedSet(c)))
          ELSE IF j + 1 <= Len(p) /\ p[j] = 45 /\ p[j + 1] # 93
          THEN IF p[j + 1] < c THEN [ok |-> FALSE, j |-> 0, r |-> <<>>]
               ELSE RxSet(p, j + 2, Append(acc, <<c, p[j + 1]>>))
          ELSE RxSet(p, j, Append(acc, <<c, c>>))

RECURSIVE RxNum(_, _, _)
RxNum(p, i, v) == IF i <= Len(p) /\ IsDigit(p[i]) THEN RxNum(p, i + 1, v * 10 + p[i] - 48) ELSE <<i, v>>
\* A quantifier at i: <<next, least, most>> (most -1: any number), next 0: none, -1: malformed
RxQuant(p, i) ==
  IF i > Len(p) THEN <<0, 0, 0>>
  ELSE CASE p[i] = 42 -> <<i + 1, 0, -1>> [] p[i] = 43 -> <<i + 1, 1, -1>> [] p[i] = 63 -> <<i + 1, 0, 1>>
         [] p[i] = 123 ->
              LET a == RxNum(p, i + 1, 0)
                  b == IF a[1] <= Len(p) /\ p[a[1]] = 44 THEN RxNum(p, a[1] + 1, 0) ELSE a
                  hi == IF b[1] = a[1] THEN a[2] ELSE IF b[1] = a[1] + 1 THEN -1 ELSE b[2]
              IN IF a[1] = i + 1 \/ b[1] > Len(p) \/ p[b[1]] # 125 \/ (hi >= 0 /\ hi < a[2]) THEN <<-1, 0, 0>>
                 ELSE <<b[1] + 1, a[2], hi>>
         [] OTHER -> <<0, 0, 0>>

RECURSIVE RxNameEnd(_, _)
RxNameEnd(p, i) == IF i > Len(p) THEN 0 ELSE IF p[i] = 62 THEN i ELSE RxNameEnd(p, i + 1)

\* g: groups opened so far; nm: their names (<<>>: none); named: may groups have names
RECURSIVE RxAlt(_, _, _, _, _), RxSeq(_, _, _, _, _, _), RxAtom(_, _, _, _, _)
RxAlt(p, i, g, nm, named) ==
  LET a == RxSeq(p, i, g, nm, named, <<>>) IN
  IF ~a.ok THEN a
  ELSE IF a.j <= Len(p) /\ p[a.j] = 124
  THEN LET b == RxAlt(p, a.j + 1, a.g, a.nm, named) IN
       IF ~b.ok THEN b ELSE RxOk(b.j, b.g, [k |-> "alt", l |-> <<a.n, b.n>>], b.nm)
  ELSE a
RxSeq(p, i, g, nm, named, acc) ==
  IF i > Len(p) \/ p[i] \in {124, 41} THEN RxOk(i, g, [k |-> "seq", l |-> acc], nm)
  ELSE LET a == RxAtom(p, i, g, nm, named)
           q == RxQuant(p, a.j)
           lazy == q[1] > 0 /\ q[1] <= Len(p) /\ p[q[1]] = 63
       IN IF ~a.ok \/ q[1] < 0 THEN RxBad
          ELSE IF q[1] = 0 THEN RxSeq(p, a.j, a.g, a.nm, named, Append(acc, a.n))
          ELSE RxSeq(p, IF lazy THEN q[1] + 1 ELSE q[1], a.g, a.nm, named,
                     Append(acc, [k |-> "rep", n |-> a.n, lo |-> q[2], hi |-> q[3], lazy |-> lazy, m |-> 0, z |-> 0]))
RxAtom(p, i, g, nm, named) ==
  LET c == p[i]
      two == IF i < Len(p) THEN p[i + 1] ELSE 0
      three == IF i + 1 < Len(p) THEN p[i + 2] ELSE 0
      Inner(j, g1, nm1) == RxAlt(p, j, g1, nm1, named)
      Close(a, n) == IF ~a.ok \/ a.j > Len(p) \/ p[a.j] # 41 THEN RxBad ELSE RxOk(a.j + 1, a.g, n, a.nm)
  IN
  CASE c = 40 /\ two = 63 ->
         CASE three = 58 -> LET a == Inner(i + 3, g, nm) IN Close(a, [k |-> "grp", n |-> a.n, id |-> 0])
           [] three \in {61, 33} -> LET a == Inner(i + 3, g, nm) IN
                                    Close(a, [k |-> "look", n |-> a.n, neg |-> three = 33])
           [] three = 60 /\ named ->
                LET z == RxNameEnd(p, i + 3)
                    a == Inner(z + 1, g + 1, Append(nm, SubSeq(p, i + 3, z - 1)))
                IN IF z <= i + 3 THEN RxBad ELSE Close(a, [k |-> "grp", n |-> a.n, id |-> g + 1])
           [] OTHER -> RxBad
    [] c = 40 -> LET a == Inner(i + 1, g + 1, Append(nm, <<>>)) IN Close(a, [k |-> "grp", n |-> a.n, id |-> g + 1])
    [] c = 91 -> LET inv == two = 94
                     t == RxSet(p, IF inv THEN i + 2 ELSE i + 1, <<>>)
                 IN IF ~t.ok THEN RxBad ELSE RxOk(t.j, g, [k |-> "c", inv |-> inv, r |-> t.r], nm)
    [] c = 46 -> RxOk(i + 1, g, [k |-> "any"], nm)
    [] c = 94 -> RxOk(i + 1, g, [k |-> "bol"], nm)
    [] c = 36 -> RxOk(i + 1, g, [k |-> "eol"], nm)
    [] c = 92 -> IF i = Len(p) THEN RxBad
                 ELSE IF IsNamed(two)
                 THEN RxOk(i + 2, g, [k |-> "c", inv |-> two < 97, r |-> NamedSet(two)], nm)
                 ELSE IF two \in Punct THEN RxOk(i + 2, g, One1(two), nm) ELSE RxBad
    [] c \in {42, 43, 63, 123} -> RxBad
    [] OTHER -> RxOk(i + 1, g, One1(c), nm)

RxParse(p, named) == LET a == RxAlt(p, 1, 0, <<>>, named) IN IF a.ok /\ a.j = Len(p) + 1 THEN a ELSE RxBad

\* In any case: ASCII letters only
Upper(c) == IF c >= 97 /\ c <= 122 THEN c - 32 ELSE c
InRanges(r, c) == \E k \in DOMAIN r : c >= r[k][1] /\ c <= r[k][2]
UnitIn(n, c, icase) ==
  LET in == IF icase THEN InRanges(n.r, Lower(c)) \/ InRanges(n.r, Upper(c)) ELSE InRanges(n.r, c)
  IN in # n.inv

\* The first way to match the nodes of k one after the other at i: <<end, captures>>,
\* <<0, ..>> if there is none.  x: [s, b, e, icase, multi]
\* A rep on the way has been matched m times, last from position z; an end closes a group.
NoMatch == <<0, <<>> >>
RepAt(n, m, z) == [k |-> "rep", n |-> n.n, lo |-> n.lo, hi |-> n.hi, lazy |-> n.lazy, m |-> m, z |-> z]
RECURSIVE RxM(_, _, _, _)
RxM(k, x, i, caps) ==
  IF k = <<>> THEN <<i, caps>>
  ELSE
  LET n == Head(k)
      t == Tail(k)
      Or2(a, b) == IF a[1] # 0 THEN a ELSE b
  IN
  CASE n.k = "c" -> IF i < x.e /\ UnitIn(n, x.s[i], x.icase) THEN RxM(t, x, i + 1, caps) ELSE NoMatch
    [] n.k = "any" -> IF i < x.e /\ x.s[i] \notin {10, 13, 8232, 8233} THEN RxM(t, x, i + 1, caps) ELSE NoMatch
    [] n.k = "bol" -> IF i = x.b \/ (x.multi /\ x.s[i - 1] \in {10, 13}) THEN RxM(t, x, i, caps) ELSE NoMatch
    [] n.k = "eol" -> IF i = x.e \/ (x.multi /\ x.s[i] \in {10, 13}) THEN RxM(t, x, i, caps) ELSE NoMatch
    [] n.k = "look" -> LET r == RxM(<<n.n>>, x, i, caps) IN
                       IF (r[1] = 0) # n.neg THEN NoMatch
                       ELSE RxM(t, x, i, IF n.neg THEN caps ELSE r[2])
    [] n.k = "grp" -> IF n.id = 0 THEN RxM(<<n.n>> \o t, x, i, caps)
                      ELSE RxM(<<n.n, [k |-> "end", id |-> n.id, z |-> i]>> \o t, x, i, caps)
    [] n.k = "end" -> RxM(t, x, i, [caps EXCEPT ![n.id] = <<n.z, i>>])
    [] n.k = "alt" -> Or2(RxM(<<n.l[1]>> \o t, x, i, caps), RxM(<<n.l[2]>> \o t, x, i, caps))
    [] n.k = "seq" -> RxM(n.l \o t, x, i, caps)
    [] n.k = "rep" ->
         LET more == IF (n.hi >= 0 /\ n.m >= n.hi) \/ (n.m > n.lo /\ n.z = i) THEN NoMatch
                     ELSE RxM(<<n.n, RepAt(n, n.m + 1, i)>> \o t, x, i, caps)
             enough == RxM(t, x, i, caps)
         IN IF n.m < n.lo THEN more
            ELSE IF n.lazy THEN Or2(enough, more) ELSE Or2(more, enough)

\* \/ in a pattern is a slash
RECURSIVE Unslash(_, _)
Unslash(p, i) == IF i > Len(p) THEN <<>>
                 ELSE IF p[i] = 92 /\ i < Len(p) /\ p[i + 1] = 47 THEN <<47>> \o Unslash(p, i + 2)
                 ELSE <<p[i]>> \o Unslash(p, i + 1)

RxMatch(sp, s, i, e, named) ==
  LET a == RxParse(Unslash(sp.re, 1), named)
      r == RxM(<<a.n>>, [s |-> s, b |-> i, e |-> e, icase |-> 105 \in sp.fl, multi |-> 109 \in sp.fl], i,
               [k \in 1..a.g |-> <<>>])
  IN IF ~a.ok THEN Fail(IFS)
     ELSE IF r[1] = 0 THEN Fail(ISV)
     ELSE Got(r[1], [caps |-> r[2], nm |-> a.nm])

\* All groups, the whole match first; a group that took no part is <<>>
ReadRegex(t, sp, s, i, e, w) ==
  LET named == t = "rxb"
      r == RxMatch(sp, s, i, e, named)
      all == << <<SubSeq(s, i, r.i - 1)>> >>
      sub(k) == IF r.v.caps[k] = <<>> THEN <<>>
                ELSE LET v == SubSeq(s, r.v.caps[k][1], r.v.caps[k][2] - 1) IN
                     IF r.v.nm[k] = <<>> THEN <<v>> ELSE <<v, r.v.nm[k]>>
  IN IF r.e # OK THEN r
     ELSE Got(r.i, IF 110 \in sp.fl THEN all ELSE all \o [k \in DOMAIN r.v.caps |-> sub(k)])

ReadRegexStr(t, sp, s, i, e, w) ==
  LET r == RxMatch(sp, s, i, e, FALSE) IN
  IF r.e # OK THEN r
  ELSE IF ~ValidText(SubSeq(s, i, r.i - 1), w) THEN Fail(ISV)
  ELSE Got(r.i, Transcode(s, i, r.i, w, TargetW(t, w)))
=============================================================================
