------------------------------- MODULE MC_File -------------------------------
(* Histories of a stream: a text is put together from pieces, then operations are
   carried out on it.  Model-checked with a small text; in simulation mode every
   finished behaviour is printed and replayed on the real library.             *)
EXTENDS File, Json, IOUtils

CONSTANTS MaxPieces, MaxOps, Emitting
VARIABLES text, left, hist, n, goal   \* goal: number of pieces of the text
vars == <<text, left, hist, n, goal>>

Pieces == << <<49, 50>>, <<45, 55>>, <<97, 98, 99>>, <<32>>, <<10>>, <<44>>, <<195, 164>>,
             <<227, 129, 130>>, <<42, 42, 51>>, <<49, 46, 53, 101, 51>>, <<97, 55>>,
             <<57, 57, 57, 57, 57, 57, 57, 57, 57, 57, 57>>, <<32, 32, 9>>,
             <<110, 97, 110, 40>>, <<48, 120, 102>>, <<120, 121, 122, 44, 32>> >>
ModelPieces == IF Emitting THEN DOMAIN Pieces ELSE {1, 3, 4, 7}
ModelScans == IF Emitting THEN DOMAIN Scans ELSE {1, 2, 4, 7, 8}

Init == text = <<>> /\ left = <<>> /\ hist = <<>> /\ n = 0 /\ goal \in 1..MaxPieces

Grow == /\ n < goal /\ goal' = goal
        /\ \E p \in ModelPieces : text' = text \o Pieces[p]
        /\ left' = text' /\ n' = n + 1 /\ hist' = hist

Op(name, a) == hist' = Append(hist, <<name, a>>)
DoScan == \E k \in ModelScans : Op("s", k) /\ left' = ScanOp(k, left).left
DoGetc == Op("g", 0) /\ left' = Cut(left, 1).left
DoUngetc == \E c \in {97, 49} : Op("u", c) /\ left' = <<c>> \o left
DoRead == \E m \in 1..3 : Op("r", m) /\ left' = Cut(left, m).left
DoLine == Op("l", 0) /\ left' = Cut(left, NewLine(left)).left
Act == /\ n = goal /\ goal' = goal /\ Len(hist) < MaxOps /\ n' = n /\ text' = text
       /\ \/ DoScan
          \/ (ValidText(left, 8) /\ (DoGetc \/ DoUngetc \/ DoRead \/ DoLine))
       /\ ValidText(left', 8)
Emit == /\ Emitting /\ Len(hist) = MaxOps /\ n' = 1000 /\ PrintT(<<"HIST", ToJson([t |-> text, h |-> hist])>>)
        /\ UNCHANGED <<text, left, hist, goal>>
Next == (n < 1000) /\ (Grow \/ Act \/ Emit)
Spec == Init /\ [][Next]_vars

\* nothing but pushed-back characters ever gets in front of a suffix of the text
Ungot == SelectSeq(hist, LAMBDA o : o[1] = "u")
SuffixOfText == \E k \in 1..(Len(text) + 1) :
   LET suf == SubSeq(text, k, Len(text)) IN
   /\ Len(left) <= Len(suf) + Len(Ungot)
   /\ \E j \in 0..Min(Len(Ungot), Len(left)) : SubSeq(left, j + 1, Len(left)) = suf
\* a failed scan changes nothing; scans never add characters
ScanShrinks == [][ \A k \in ModelScans :
      (hist' = Append(hist, <<"s", k>>)) =>
         /\ Len(left') <= Len(left)
         /\ ScanOp(k, left).st.err # OK => left' = left ]_vars
\* a scan that uses up nothing can be repeated with the same outcome, and reading
\* the used characters by hand leaves the stream in the same state as the scan
ByHand == \A k \in ModelScans : LET o == ScanOp(k, left) IN
   o.st.err = OK => o.left = Cut(left, o.st.pos - 1).left
=============================================================================
