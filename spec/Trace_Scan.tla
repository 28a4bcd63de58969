----------------------------- MODULE Trace_Scan -----------------------------
(* Checks scans recorded from the real library against the specification.

   An event holds the argument types, the format string, the source text and,
   for every distinct outcome seen over the different kinds of source, the error
   or the units consumed and the values.  Chunks of events are independent
   behaviours; each step consumes one event.  A rejected event is reported by
   its number and checking goes on.                                            *)
EXTENDS Scan, Accept, Json, IOUtils

Ev == ndJsonDeserialize(IOEnv.EVENTS)
Chunks == atoi(IOEnv.CHUNKS)
Size == (Len(Ev) + Chunks - 1) \div Chunks

VARIABLES k, hi
vars == <<k, hi>>

Init == \E c \in 0..(Chunks - 1) :
          /\ k = c * Size + 1
          /\ hi = Min((c + 1) * Size, Len(Ev))
          /\ k <= hi

Next == /\ k <= hi
        /\ k' = k + 1
        /\ hi' = hi
        /\ \/ AcceptScan(Ev[k])
           \/ PrintT(<<"BAD", k>>)

Spec == Init /\ [][Next]_vars
=============================================================================
