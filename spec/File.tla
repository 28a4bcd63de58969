-------------------------------- MODULE File --------------------------------
(* A C stream shared by scans and by the program's own reads.  All that matters
   about the stream is `left`, the characters still to come.  Operations:

     s k      scan with the k-th of Scans: on success what was used is gone, on
              failure nothing is
     g        getc          u c   ungetc(c)
     r n      fread of n    l     fgets of a line                               *)
EXTENDS Scan

Brace == <<123, 125>>
Sc(f, t) == [f |-> f, t |-> t]
Scans == <<
  Sc(Brace, <<"i32">>),
  Sc(Brace, <<"str">>),
  Sc(Brace, <<"cp">>),
  Sc(<<123, 58, 91, 97, 45, 122, 93, 125>>, <<"str">>),       \* {:[a-z]}
  Sc(<<123, 125, 32, 123, 125>>, <<"i32", "i32">>),           \* {} {}
  Sc(Brace, <<"f64">>),
  Sc(<<32>>, <<>>),
  Sc(<<97, 123, 125>>, <<"i32">>),                            \* a{}
  Sc(<<123, 58, 46, 51, 99, 125>>, <<"str">>),                \* {:.3c}
  Sc(<<123, 58, 42, 62, 52, 125>>, <<"i32">>),                \* {:*>4}
  Sc(<<123, 125, 44, 123, 125>>, <<"str", "str">>),           \* {},{}
  Sc(<<123, 125, 123>>, <<"i32">>),                           \* {}{
  Sc(<<123, 58, 91, 94, 10, 93, 125, 10>>, <<"str">>),        \* {:[^\n]}\n
  Sc(<<123, 125, 123, 125>>, <<"cp", "i32">>) >>              \* {}{}

\* what operation o does to the characters left: [r: what it shows, left: what remains]
ScanOp(k, left) ==
  LET c == Scans[k]
      items == Items(c.f, 8, c.t, FALSE)
      st == RunFrom(Start(Len(c.t)), items, c.t, left, 8)
  IN [st |-> st, items |-> items,
      left |-> IF st.err = OK THEN SubSeq(left, st.pos, Len(left)) ELSE left]

RECURSIVE NewLineFrom(_, _)
NewLineFrom(left, k) == IF k >= Len(left) \/ left[k] = 10 THEN Min(k, Len(left)) ELSE NewLineFrom(left, k + 1)
NewLine(left) == NewLineFrom(left, 1)
Cut(left, n) == LET m == Min(n, Len(left)) IN
                [v |-> SubSeq(left, 1, m), left |-> SubSeq(left, m + 1, Len(left))]
=============================================================================
