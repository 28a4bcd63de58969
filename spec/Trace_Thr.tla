------------------------------ MODULE Trace_Thr ------------------------------
(* Checks what two threads saw of one stream.  An operation also tells when it
   began (b) and when it was done (d); there has to be an order of the operations
   that doesn't contradict that, in which one after the other shows what it did
   and leaves what was left in the end.                                         *)
EXTENDS Trace_File

RECURSIVE InOrder(_, _, _)
InOrder(ops, todo, left) ==
  IF todo = {} THEN ops[Len(ops)].v = left
  ELSE \E j \in todo :
         /\ \A m \in todo : ~(ops[m].d < ops[j].b)
         /\ LET r == OpOk(ops[j], left) IN r.ok /\ InOrder(ops, todo \ {j}, r.left)

AcceptThr(ev) == /\ \A m \in DOMAIN ev.r : ev.r[m].e = 0
                 /\ \A v \in {ev.r[m].v : m \in DOMAIN ev.r} :
                      Len(v) > 0 /\ v[Len(v)].o = "z" /\ InOrder(v, 1..(Len(v) - 1), ev.s)
ThrNext == /\ k <= hi /\ k' = k + 1 /\ hi' = hi
           /\ \/ AcceptThr(Ev[k])
              \/ PrintT(<<"BAD", k>>)
ThrSpec == Init /\ [][ThrNext]_vars
=============================================================================
