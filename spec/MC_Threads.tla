------------------------------ MODULE MC_Threads ------------------------------
(* Threads that scan the same stream.  A scan locks the stream, moves characters
   of it into memory of its own until its outcome is settled, puts the ones it
   didn't use back one by one, and unlocks the stream.  Every finished history
   has to be one that the scans give when carried out one after the other.

   Keep: the lock is kept while characters are put back.  (With Keep = FALSE
   Serial is violated; that is how the library once was.)                      *)
EXTENDS File

CONSTANTS MaxPieces, MaxOps, Keep, Chunk
VARIABLES text, left, owner, th, log
vars == <<text, left, owner, th, log>>

Threads == {1, 2}
Pieces == { <<49, 50>>, <<97, 98>>, <<32>>, <<45>> }
ModelScans == IF MaxPieces > 2 THEN {1, 4, 5} ELSE {1, 2, 5}
Idle(n) == [ph |-> "idle", k |-> 0, taken |-> <<>>, err |-> 0, vals |-> <<>>, n |-> n]

RECURSIVE Join(_)
Join(ps) == IF ps = <<>> THEN <<>> ELSE Head(ps) \o Join(Tail(ps))
Init == /\ \E n \in 1..MaxPieces : \E ps \in [1..n -> Pieces] : text = Join(ps)
        /\ left = text /\ owner = 0 /\ log = <<>>
        /\ th = [t \in Threads |-> Idle(0)]

Begin(t) == /\ th[t].ph = "idle" /\ th[t].n < MaxOps
            /\ \E k \in ModelScans : th' = [th EXCEPT ![t] = [Idle(@.n + 1) EXCEPT !.ph = "wait", !.k = k]]
            /\ UNCHANGED <<text, left, owner, log>>
Lock(t) == /\ th[t].ph = "wait" /\ owner = 0 /\ owner' = t
           /\ th' = [th EXCEPT ![t].ph = "read"]
           /\ UNCHANGED <<text, left, log>>
Fill(t) == /\ th[t].ph = "read" /\ left # <<>>
           /\ \E m \in 1..Min(Chunk, Len(left)) :
                /\ th' = [th EXCEPT ![t].taken = @ \o SubSeq(left, 1, m)]
                /\ left' = SubSeq(left, m + 1, Len(left))
           /\ UNCHANGED <<text, owner, log>>
\* settled: more characters wouldn't change the outcome
Settled(t) == LET o == ScanOp(th[t].k, th[t].taken)
                  p == ScanOp(th[t].k, th[t].taken \o left)
              IN left = <<>> \/ (o.st = p.st /\ o.st.pos <= Len(th[t].taken))
Settle(t) == /\ th[t].ph = "read" /\ Settled(t)
             /\ LET o == ScanOp(th[t].k, th[t].taken) IN
                th' = [th EXCEPT ![t].ph = "back", ![t].taken = o.left, ![t].err = o.st.err, ![t].vals = o.st.vals]
             /\ owner' = IF Keep THEN t ELSE 0
             /\ UNCHANGED <<text, left, log>>
Back(t) == /\ th[t].ph = "back" /\ th[t].taken # <<>>
           /\ LET q == th[t].taken IN
              /\ left' = <<q[Len(q)]>> \o left
              /\ th' = [th EXCEPT ![t].taken = SubSeq(q, 1, Len(q) - 1)]
           /\ UNCHANGED <<text, owner, log>>
Unlock(t) == /\ th[t].ph = "back" /\ th[t].taken = <<>> /\ owner \in {0, t}
             /\ owner' = 0
             /\ log' = Append(log, [k |-> th[t].k, err |-> th[t].err, vals |-> th[t].vals])
             /\ th' = [th EXCEPT ![t] = Idle(@.n)]
             /\ UNCHANGED <<text, left>>
Next == \E t \in Threads : Begin(t) \/ Lock(t) \/ Fill(t) \/ Settle(t) \/ Back(t) \/ Unlock(t)
Fair == \A t \in Threads : /\ WF_vars(Lock(t) \/ Settle(t) \/ Back(t) \/ Unlock(t)) /\ WF_vars(Fill(t))
                           /\ SF_vars(Lock(t))
Spec == Init /\ [][Next]_vars /\ Fair

\* the scans of the log, one after the other: [ok, left]
RECURSIVE After(_, _)
After(n, lft) ==
  IF n > Len(log) THEN [ok |-> TRUE, left |-> lft]
  ELSE LET o == ScanOp(log[n].k, lft) IN
       IF o.st.err = log[n].err /\ (o.st.err # OK \/ o.st.vals = log[n].vals) THEN After(n + 1, o.left)
       ELSE [ok |-> FALSE, left |-> lft]
Serial == (\A t \in Threads : th[t].ph \in {"idle", "wait"}) =>
            LET a == After(1, text) IN a.ok /\ a.left = left
\* nothing is ever lost or made up: what is left and what the scans hold is the end of the text
Mine(t) == th[t].taken
Conserved == owner # 0 => LET all == Mine(owner) \o left IN
               \E m \in 0..Len(text) : SubSeq(text, m + 1, Len(text)) = all
\* whoever starts gets an answer
Answered == \A t \in Threads : (th[t].ph = "wait") ~> (th[t].ph = "idle")
===============================================================================
