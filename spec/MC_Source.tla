------------------------------ MODULE MC_Source ------------------------------
(* How a scan sees a C stream, and what it leaves behind.

   The stream: `pend`, the characters its buffer holds (read ahead, or pushed
   back), then `rest`, those still to be read from the device, at most Chunk at a
   time.  A scan reads through a window of its own: `back`, the characters it has
   already moved past the stream's buffer, then `view`, the ones it is looking at
   inside that buffer.  It may look at any number of characters and then succeed,
   having used some of them, or fail.  Between scans the program reads and pushes
   back characters itself.

   Whatever the chunks and the interleaving, the scan sees the characters in
   order, and afterwards exactly those it used are gone.                        *)
EXTENDS Integers, Sequences

CONSTANTS Len0, Chunks, MaxOps

VARIABLES pend, rest, chunk,   \* the stream
          back, view, scanning, seen,   \* the scan under way; seen: looked at
          want,                \* what a program expects to read next (history)
          ops
vars == <<pend, rest, chunk, back, view, scanning, seen, want, ops>>

Content == [k \in 1..Len0 |-> k]
Min2(a, b) == IF a < b THEN a ELSE b
Drop(q, n) == SubSeq(q, n + 1, Len(q))
Take(q, n) == SubSeq(q, 1, n)

Init == /\ pend = <<>> /\ rest = Content /\ chunk \in Chunks
        /\ back = <<>> /\ view = <<>> /\ scanning = FALSE /\ seen = 0
        /\ want = Content /\ ops = 0

\* the device delivers: pend must be empty; a device may deliver less than asked
Deliver == \E n \in 1..Min2(chunk, Len(rest)) : pend' = Take(rest, n) /\ rest' = Drop(rest, n)

\* --- the program itself -----------------------------------------------------
Getc == /\ ~scanning /\ ops < MaxOps /\ ops' = ops + 1
        /\ IF pend # <<>>
           THEN pend' = Tail(pend) /\ rest' = rest /\ want' = Tail(want)
           ELSE IF rest # <<>>
           THEN \E n \in 1..Min2(chunk, Len(rest)) :
                  /\ pend' = Tail(Take(rest, n)) /\ rest' = Drop(rest, n) /\ want' = Tail(want)
           ELSE UNCHANGED <<pend, rest, want>>
        /\ UNCHANGED <<chunk, back, view, scanning, seen>>
Ungetc == /\ ~scanning /\ ops < MaxOps /\ ops' = ops + 1
          /\ pend' = <<99>> \o pend /\ want' = <<99>> \o want
          /\ UNCHANGED <<rest, chunk, back, view, scanning, seen>>

\* --- a scan -------------------------------------------------------------------
Begin == /\ ~scanning /\ ops < MaxOps /\ ops' = ops + 1
         /\ scanning' = TRUE /\ back' = <<>> /\ view' = <<>> /\ seen' = 0
         /\ UNCHANGED <<pend, rest, chunk, want>>
\* look at one more character: inside the view, or after moving on to a new one
Look ==
  /\ scanning
  /\ IF seen < Len(back) + Len(view)
     THEN seen' = seen + 1 /\ UNCHANGED <<pend, rest, back, view>>
     ELSE LET p2 == Drop(pend, Len(view)) IN       \* the stream gives up the view
          /\ back' = back \o view
          /\ IF p2 # <<>> THEN pend' = p2 /\ rest' = rest
             ELSE IF rest # <<>>
             THEN \E n \in 1..Min2(chunk, Len(rest)) :
                    pend' = Take(rest, n) /\ rest' = Drop(rest, n)
             ELSE pend' = <<>> /\ rest' = rest
          /\ view' = pend'
          /\ seen' = IF view' # <<>> THEN seen + 1 ELSE seen
  /\ UNCHANGED <<chunk, scanning, want, ops>>
\* give back what was not used: n characters count as read
Sync(n) ==
  IF n < Len(back) THEN pend' = Drop(back, n) \o pend
  ELSE pend' = Drop(pend, n - Len(back))
End ==
  /\ scanning /\ scanning' = FALSE
  /\ \E n \in 0..seen :
       /\ Sync(n)
       /\ want' = Drop(want, n)
  /\ back' = <<>> /\ view' = <<>> /\ seen' = 0
  /\ UNCHANGED <<rest, chunk, ops>>

Next == Getc \/ Ungetc \/ Begin \/ Look \/ End
Spec == Init /\ [][Next]_vars

\* --- the guarantees --------------------------------------------------------------
\* between scans the stream holds exactly what is left
Synced == ~scanning => pend \o rest = want
\* during a scan: the window shows the text, in order, nothing lost or repeated
Window == scanning => Take(want, Len(back) + Len(view)) = back \o view
Whole == scanning => back \o pend \o rest = want
Inside == scanning => seen <= Len(back) + Len(view) /\ Len(view) <= Len(pend)
=============================================================================
