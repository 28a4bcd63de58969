----------------------------- MODULE Trace_File -----------------------------
(* Checks histories of streams recorded from the real library.  An event holds the
   text and one record per operation: o (operation), a (its argument), e and v
   (what it showed); the last one, "z", is everything that was left.           *)
EXTENDS File, Accept, Json, IOUtils

Ev == ndJsonDeserialize(IOEnv.EVENTS)
Chunks == atoi(IOEnv.CHUNKS)
Size == (Len(Ev) + Chunks - 1) \div Chunks

\* [ok, left] after operation x on a stream with these characters left
OpOk(x, left) ==
  CASE x.o = "s" ->
         LET o == ScanOp(x.a, left)
         IN [ok |-> OutcomeOk(o.st, o.items, Scans[x.a].t, [e |-> x.e, n |-> o.st.pos - 1, v |-> x.v]),
             left |-> o.left]
    [] x.o = "g" -> LET c == Cut(left, 1) IN [ok |-> x.v = c.v, left |-> c.left]
    [] x.o = "u" -> [ok |-> TRUE, left |-> IF x.e = 0 THEN <<x.a>> \o left ELSE left]
    [] x.o = "r" -> LET c == Cut(left, x.a) IN [ok |-> x.v = c.v, left |-> c.left]
    [] x.o = "l" -> LET c == Cut(left, NewLine(left)) IN [ok |-> x.v = c.v, left |-> c.left]
    [] x.o = "z" -> [ok |-> x.v = left, left |-> <<>>]
    [] OTHER -> [ok |-> FALSE, left |-> <<>>]

RECURSIVE Walk(_, _, _)
Walk(ops, k, left) ==
  IF k > Len(ops) THEN TRUE
  ELSE LET r == OpOk(ops[k], left) IN r.ok /\ Walk(ops, k + 1, r.left)

AcceptRun(v, s) == Len(v) > 0 /\ v[Len(v)].o = "z" /\ Walk(v, 1, s)
AcceptHist(ev) == /\ \A k \in DOMAIN ev.r : ev.r[k].e = 0
                  /\ \A v \in {ev.r[k].v : k \in DOMAIN ev.r} : AcceptRun(v, ev.s)

VARIABLES k, hi
vars == <<k, hi>>
Init == \E c \in 0..(Chunks - 1) :
          k = c * Size + 1 /\ hi = Min((c + 1) * Size, Len(Ev)) /\ k <= hi
Next == /\ k <= hi /\ k' = k + 1 /\ hi' = hi
        /\ \/ AcceptHist(Ev[k])
           \/ PrintT(<<"BAD", k>>)
Spec == Init /\ [][Next]_vars
=============================================================================
