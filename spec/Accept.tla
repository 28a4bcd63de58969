------------------------------- MODULE Accept -------------------------------
(* When an observed outcome is one the specification allows. *)
EXTENDS Scan

\* The first entry with a key is the one that is kept
FirstEntries(es) == {es[k] : k \in {j \in DOMAIN es : \A h \in 1..(j - 1) : es[h][1] # es[j][1]}}
SameMembers(want, got) == /\ {got[k] : k \in DOMAIN got} = want
                          /\ Len(got) = Cardinality(want)
ValueMatches(t, want, got) ==
  IF t \in {"Rset", "Rsstr", "Rpreset"} THEN SameMembers({want[k] : k \in DOMAIN want}, got)
  ELSE IF t \in {"Rmap", "Rmv", "Rpremap"} THEN SameMembers(FirstEntries(want), got)
  ELSE IF t \in Chronos THEN ChrMatches(t, want, got)
  ELSE IF t \in Floats THEN FloatMatches(t, want, got) ELSE want = got

ValuesMatch(types, want, got) ==
  /\ Len(got) = Len(types)
  /\ \A k \in DOMAIN types : ValueMatches(types[k], want[k], got[k])

\* st: the specification's final state; r: observed.  When the format string is
\* malformed further on, reporting that first is as good.
OutcomeOk(st, items, types, r) ==
  IF st.err = LITX THEN r.e \in {IFS, ISV, ILIT}
  ELSE IF st.err # OK THEN r.e = st.err \/ (r.e = IFS /\ Malformed(items))
  ELSE /\ r.e = OK
       /\ r.n = st.pos - 1
       /\ ValuesMatch(types, st.vals, r.v)

\* Text that is not validly encoded: nothing invalid may come out of it
SafeOutcome(types, s, w, r) ==
  \/ r.e \in 1..11
  \/ /\ r.e = OK /\ r.n >= 0 /\ r.n <= Len(s)
     /\ \A k \in DOMAIN types :
          /\ types[k] \in {"str", "wstr", "sv"} =>
                ValidText(r.v[k], TargetW(types[k], w))
          /\ types[k] = "cp" => IsScalar(r.v[k][1])

KindMatters(ev, items) ==
  \/ \E k \in DOMAIN ev.t : ev.t[k] \in {"sv", "rx", "rxb"}
  \/ \E k \in DOMAIN items : items[k].k = "field" /\ items[k].sp.ty = 47

(* Integers read without a format string: "b" and the base, 0 for any *)
BaseNames == <<"b1", "b2", "b3", "b4", "b5", "b6", "b7", "b8", "b9", "b10", "b11", "b12",
  "b13", "b14", "b15", "b16", "b17", "b18", "b19", "b20", "b21", "b22", "b23", "b24", "b25",
  "b26", "b27", "b28", "b29", "b30", "b31", "b32", "b33", "b34", "b35", "b36", "b0">>
BaseFromName(x) == LET k == CHOOSE j \in DOMAIN BaseNames : BaseNames[j] = x
                   IN IF k = 37 THEN 0 ELSE k
AcceptFast(ev) ==
  LET r == ReadIntFast(ev.t[1], BaseFromName(ev.x), ev.s, 1, Len(ev.s) + 1)
  IN \A k \in DOMAIN ev.r :
       /\ ev.r[k].e = r.e
       /\ r.e = OK => ev.r[k].n = r.i - 1 /\ ev.r[k].v = <<r.v>>

(* Locales of the harness, by number: L<k> is given to the scan, G<k> is the global one *)
Locales8 == <<
  [dp |-> 46, ts |-> 44, tn |-> <<116, 114, 117, 101>>, fn |-> <<102, 97, 108, 115, 101>>],
  [dp |-> 44, ts |-> 46, tn |-> <<106, 97>>, fn |-> <<110, 101, 105, 110>>],
  [dp |-> 46, ts |-> 39, tn |-> <<116, 111, 115, 105>>, fn |-> <<116, 111>>],
  [dp |-> 44, ts |-> 32, tn |-> <<107, 121, 108, 108, 195, 164>>, fn |-> <<101, 105>>],
  [dp |-> 44, ts |-> -1, tn |-> <<116, 114>>, fn |-> <<116, 114, 117>>],
  [dp |-> 58, ts |-> 95, tn |-> <<195, 164>>, fn |-> <<195, 182>>]>>
Locales32 == <<
  [dp |-> 46, ts |-> 44, tn |-> <<116, 114, 117, 101>>, fn |-> <<102, 97, 108, 115, 101>>],
  [dp |-> 44, ts |-> 46, tn |-> <<106, 97>>, fn |-> <<110, 101, 105, 110>>],
  [dp |-> 46, ts |-> 39, tn |-> <<116, 111, 115, 105>>, fn |-> <<116, 111>>],
  [dp |-> 44, ts |-> 32, tn |-> <<107, 121, 108, 108, 228>>, fn |-> <<101, 105>>],
  [dp |-> 44, ts |-> -1, tn |-> <<116, 114>>, fn |-> <<116, 114, 117>>],
  [dp |-> 1643, ts |-> 160, tn |-> <<228>>, fn |-> <<246>>]>>
GivenNames == <<"L1", "L2", "L3", "L4", "L5", "L6">>
GlobalNames == <<"G1", "G2", "G3", "G4", "G5", "G6">>
LocaleFor(x, w) ==
  LET of(k) == IF w = 8 THEN Locales8[k] ELSE Locales32[k] IN
  IF \E k \in DOMAIN GivenNames : x \in {GivenNames[k], GlobalNames[k]}
  THEN of(CHOOSE k \in DOMAIN GivenNames : x \in {GivenNames[k], GlobalNames[k]})
  ELSE Classic
\* The compiler: rejects exactly the malformed format strings
AcceptCT(ev) ==
  \A k \in DOMAIN ev.r :
    ValidText(ev.f, ev.w) =>
      ((ev.r[k].e = OK) <=> ~Malformed(Items(ev.f, ev.w, ev.t, ev.r[k].c)))
AcceptScan(ev) ==
  IF ev.x = "CT" THEN AcceptCT(ev)
  ELSE IF \E j \in DOMAIN BaseNames : BaseNames[j] = ev.x THEN AcceptFast(ev)
  ELSE IF ~ValidText(ev.s, ev.w) \/ ~ValidText(ev.f, ev.w)
  THEN \A k \in DOMAIN ev.r : SafeOutcome(ev.t, ev.s, ev.w, ev.r[k])
  ELSE
  LET loc == LocaleFor(ev.x, ev.w)
      it1 == InLocale(loc, Items(ev.f, ev.w, ev.t, TRUE))
      it2 == IF KindMatters(ev, it1) THEN InLocale(loc, Items(ev.f, ev.w, ev.t, FALSE)) ELSE it1
      st1 == RunFrom(Start(Len(ev.t)), it1, ev.t, ev.s, ev.w)
      st2 == IF it1 = it2 THEN st1
             ELSE RunFrom(Start(Len(ev.t)), it2, ev.t, ev.s, ev.w)
  IN \A k \in DOMAIN ev.r :
       IF ev.r[k].c THEN OutcomeOk(st1, it1, ev.t, ev.r[k])
       ELSE \/ OutcomeOk(st2, it2, ev.t, ev.r[k])
            \* Nothing to read: as good a reason as the kind of the source
            \/ st2.err = IFS /\ st1.err = EOI /\ ev.r[k].e = EOI
=============================================================================
