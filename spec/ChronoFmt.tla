----------------------------- MODULE ChronoFmt ------------------------------
(* Format specifications of dates and times: %-specifiers, whitespace and other
   text.  From the text of a specification to its tokens,

     [k |-> "ws"]   [k |-> "lit", c |-> units]   [k |-> "sp", c |-> letter, alt]

   and which of them are allowed together for which type.  An L in front asks
   for the names and digits of a locale; in the classic locale they are the same.                                                  *)
EXTENDS Base

Chronos == {"Ttm", "Ttz", "Tdt", "Tday", "Tmon", "Tyear", "Twd", "Tmd", "Tym", "Tymd", "Ttp"}

\* specifiers by letter; those after E and O
Letters == {89, 121, 67, 98, 66, 104, 109, 106, 100, 101, 97, 65, 119, 117, 72, 107, 73, 108,
            77, 83, 122, 90, 99, 120, 88, 68, 70, 114, 82, 84, 112, 80}
AfterE == {99, 67, 120, 88, 89, 122}
AfterO == {100, 101, 72, 107, 73, 108, 109, 77, 83, 119, 121, 122}

ChrBad == [ok |-> FALSE, j |-> 0, d |-> <<>>]
ChrSp(c, alt) == [k |-> "sp", c |-> c, alt |-> alt]

RECURSIVE ChrTokens(_, _, _, _, _)
ChrTokens(f, i, e, w, acc) ==
  IF i >= e THEN ChrBad
  ELSE IF f[i] = 125 THEN [ok |-> TRUE, j |-> i, d |-> acc]
  ELSE IF f[i] # 37
  THEN LET d == Dec(f, i, e, w) IN
       IF d[1] < 0 THEN ChrBad
       ELSE ChrTokens(f, i + d[2], e, w,
              Append(acc, IF IsWs(d[1]) THEN [k |-> "ws"]
                          ELSE [k |-> "lit", c |-> SubSeq(f, i, i + d[2] - 1)]))
  ELSE IF i + 1 >= e THEN ChrBad
  ELSE LET c == f[i + 1] IN
       CASE c = 37 -> ChrTokens(f, i + 2, e, w, Append(acc, [k |-> "lit", c |-> <<37>>]))
         [] c \in {110, 116} -> ChrTokens(f, i + 2, e, w, Append(acc, [k |-> "ws"]))
         [] c = 46 -> LET j == IF i + 2 < e /\ f[i + 2] \in {69, 79} THEN i + 3 ELSE i + 2 IN
                      IF j < e /\ f[j] = 83
                      THEN ChrTokens(f, j + 1, e, w, Append(acc, ChrSp(46, FALSE))) ELSE ChrBad
         [] c = 69 -> IF i + 2 < e /\ f[i + 2] \in AfterE
                      THEN ChrTokens(f, i + 3, e, w, Append(acc, ChrSp(f[i + 2], TRUE))) ELSE ChrBad
         [] c = 79 -> IF i + 2 < e /\ f[i + 2] \in AfterO
                      THEN ChrTokens(f, i + 3, e, w, Append(acc, ChrSp(f[i + 2], TRUE))) ELSE ChrBad
         [] c \in Letters -> ChrTokens(f, i + 2, e, w, Append(acc, ChrSp(c, FALSE)))
         [] OTHER -> ChrBad

\* What a specifier sets
ChrSets(c) ==
  CASE c = 89 -> {"Y"} [] c = 121 -> {"y"} [] c = 67 -> {"C"}
    [] c \in {98, 66, 104, 109} -> {"mon"} [] c = 106 -> {"yday"}
    [] c \in {100, 101} -> {"mday"} [] c \in {97, 65, 119, 117} -> {"wday"}
    [] c \in {72, 107} -> {"h24"} [] c \in {73, 108} -> {"h12"}
    [] c = 77 -> {"min"} [] c = 83 -> {"sec"} [] c = 46 -> {"sub"}
    [] c = 122 -> {"tz"} [] c = 90 -> {"zn"} [] c \in {112, 80} -> {"pm"}
    [] c = 99 -> {"Y", "mon", "mday", "h24", "min", "sec"}
    [] c \in {120, 70} -> {"Y", "mon", "mday"}
    [] c \in {88, 84, 114} -> {"h24", "min", "sec"}
    [] c = 68 -> {"y", "mon", "mday"}
    [] c = 82 -> {"h24", "min"}

Years == {"Y", "y", "C"}
TmHas == Years \cup {"mon", "yday", "mday", "wday", "h24", "h12", "min", "sec", "tz", "pm"}
ChrHas(t) ==
  CASE t = "Ttm" -> TmHas [] t = "Ttz" -> TmHas \cup {"zn"}
    [] t \in {"Tdt", "Ttp"} -> TmHas \cup {"zn", "sub"}
    [] t = "Tday" -> {"mday"} [] t = "Tmon" -> {"mon"} [] t = "Tyear" -> Years
    [] t = "Twd" -> {"wday"} [] t = "Tmd" -> {"mon", "mday"}
    [] t = "Tym" -> Years \cup {"mon"} [] t = "Tymd" -> Years \cup {"mon", "mday"}

\* No field twice, none that the type does not have, all that it must have, and
\* no two ways of saying the same
ChrSuits(t, d) ==
  LET sp == {k \in DOMAIN d : d[k].k = "sp"}
      all == UNION {ChrSets(d[k].c) : k \in sp}
      one(a, b) == ~(a \in all /\ b \in all)
  IN /\ \A a, b \in sp : a # b => ChrSets(d[a].c) \cap ChrSets(d[b].c) = {}
     /\ all \subseteq ChrHas(t)
     /\ t \in {"Tday", "Tmon", "Twd", "Tmd"} => all = ChrHas(t)
     /\ t \in {"Tym", "Tymd", "Tyear"} => all \cap Years # {} /\ ChrHas(t) \ Years \subseteq all
     /\ one("h24", "h12") /\ ("pm" \in all => "h12" \in all)
     /\ one("Y", "y") /\ one("Y", "C") /\ one("tz", "zn")
     /\ one("wday", "mday") /\ one("wday", "yday") /\ one("mday", "yday")
=============================================================================
