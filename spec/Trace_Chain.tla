----------------------------- MODULE Trace_Chain -----------------------------
(* Checks chains of scans, each going on from what the one before left.  Formats
   are separated by the unit 1 in ev.f.  Steps: k > 0 the k-th scan, k = 0 all
   that was left of a stream, k = -1 a single scan with the formats joined.     *)
EXTENDS Scan, Accept, Json, IOUtils

Ev == ndJsonDeserialize(IOEnv.EVENTS)
Chunks == atoi(IOEnv.CHUNKS)
Size == (Len(Ev) + Chunks - 1) \div Chunks

RECURSIVE Split(_, _, _)
Split(f, k, cur) == IF k > Len(f) THEN <<cur>>
                    ELSE IF f[k] = 1 THEN <<cur>> \o Split(f, k + 1, <<>>)
                    ELSE Split(f, k + 1, Append(cur, f[k]))
RECURSIVE Join(_)
Join(fs) == IF fs = <<>> THEN <<>> ELSE Head(fs) \o Join(Tail(fs))

\* steps from number k on, `used` units consumed before
RECURSIVE Steps(_, _, _, _, _, _, _, _)
Steps(xs, k, fs, ts, s, used, w, contiguous) ==
  IF k > Len(xs) THEN k - 1 = Len(fs) \/ xs[k - 1].e # OK \/ xs[k-1].k = 0
  ELSE IF xs[k].k = 0 THEN xs[k].v = SubSeq(s, used + 1, Len(s)) /\ k = Len(xs)
  ELSE LET t == <<ts[k]>>
           items == Items(fs[k], w, t, contiguous)
           rest == SubSeq(s, used + 1, Len(s))
           st == RunFrom(Start(1), items, t, rest, w)
           n == used + st.pos - 1
       IN IF st.err # OK
          THEN /\ OutcomeOk(st, items, t, xs[k])
               /\ (k = Len(xs) \/ (k + 1 = Len(xs) /\ xs[k+1].k = 0
                                   /\ xs[k+1].v = rest))
          ELSE /\ OutcomeOk(st, items, t, [xs[k] EXCEPT !.n = IF @ < 0 THEN st.pos - 1 ELSE @ - used])
               /\ Steps(xs, k + 1, fs, ts, s, n, w, contiguous)

AcceptOne(ev, r) ==
  /\ r.e = 0 /\ Len(r.v) > 0
  /\ IF r.v[1].k = -1
     THEN LET f == Join(Split(ev.f, 1, <<>>))
              items == Items(f, ev.w, ev.t, r.c)
          IN OutcomeOk(RunFrom(Start(Len(ev.t)), items, ev.t, ev.s, ev.w), items, ev.t, r.v[1])
     ELSE Steps(r.v, 1, Split(ev.f, 1, <<>>), ev.t, ev.s, 0, ev.w, r.c)
AcceptChain(ev) == \A k \in DOMAIN ev.r : AcceptOne(ev, ev.r[k])

VARIABLES k, hi
vars == <<k, hi>>
Init == \E c \in 0..(Chunks - 1) :
          k = c * Size + 1 /\ hi = Min((c + 1) * Size, Len(Ev)) /\ k <= hi
Next == /\ k <= hi /\ k' = k + 1 /\ hi' = hi
        /\ \/ AcceptChain(Ev[k])
           \/ PrintT(<<"BAD", k>>)
Spec == Init /\ [][Next]_vars
=============================================================================
