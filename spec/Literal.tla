------------------------------- MODULE Literal -------------------------------
(* String literals and quoted names, character by character, numbers, placeholders and names of unusual form, in every
   place of a query and next to each other.
   A literal ends at the first quote of its own kind that is neither doubled nor behind a backslash; nothing else inside
   of it means anything.  So the tokens of a query do not depend on what its literals hold.                            *)
EXTENDS Syntax, Json, Randomization

CONSTANTS MaxPieces, Fanout

VARIABLES lits, place, n
vars == <<lits, place, n>>

(* ------------------------------------------------------------------ literals *)
QuoteSet == {"'", "\"", "`"}
Backslash == "\\"
(* in texts, ~ stands for a line end, # for a letter outside ASCII and \f for # *)
Plain == {"a", "F", "0", " ", "~", "\t", "\r", "(", ")", "[", "]", ",", ";", "-", "*", "%", "{", "}", ".", "=", "<", "!", "|", "/", ":", "$",
          "@", "#", "\f", "_", "&", "^", "?"}
Wordy == {"from ", " select ", "--", "/*", "*/", "%(x)s", "case", " as ", " end", "1.50", "<>", "::", " and ", "null", "~~", "  ", "''x",
          "\"\"", "``", "e5", "union all"}
Own(q) == { w \in Wordy : w \notin {"''x", "\"\"", "``"} \/ (w = "''x" /\ q # "'") \/ (w = "\"\"" /\ q # "\"") \/ (w = "``" /\ q # "`") }
Pieces(q) == Plain \cup Own(q) \cup (QuoteSet \ {q})
             \cup { Backslash \o c : c \in {"a", "n", " ", "~", "(", Backslash} \cup QuoteSet }
             \cup { q \o q }
Prefixes(q) == IF q = "`" THEN {""} ELSE IF q = "'" THEN {"", "r", "B", "rb", "e", "X"} ELSE {"", "R", "b", "bR"}

(* without quotes: numbers, placeholders, names *)
Forms == {"0", "007", "1.50", "1.", ".5", "1e5", "1E-3", "1.5e+3", "0x1F", "1_000", "12345678901234567890", "0.1e-10",
          "?", "%s", "%(na_me)s", ":id", ":1", "{x}", "${x}", "$1", "@x", "@@x", "table_%s_x", "tab_{x}_y", "{x.y}", "{x!r}",
          "a$b", "_a", "a1", "#t#", "nu\fm", "selectx", "x_select", "from1", "orderby", "isnull", "notin", "e", "r", "rb", "x", "n"}
Lit(p, q, b) == [p |-> p, q |-> q, b |-> b]
RECURSIVE Joined(_)
Joined(b) == IF b = <<>> THEN "" ELSE Head(b) \o Joined(Tail(b))
(* `` is no name *)
Text(l) == l.p \o l.q \o (IF l.b = <<>> /\ l.q = "`" THEN "x" ELSE Joined(l.b)) \o l.q
T(l) == IF l.q = "" THEN N("num", l.p, <<>>) ELSE N("str", Text(l), <<>>)
Bare(l) == N("str", Text([l EXCEPT !.p = ""]), <<>>)
(* a literal for certain *)
Sure(l) == IF l.q = "'" THEN Bare(l) ELSE N("str", "'d'", <<>>)
(* as a name: with the quotes of names *)
NameOf(l) == IF l.q \in {"'", ""} THEN N("str", "`y`", <<>>) ELSE Bare(l)

(* ------------------------------------------------------------------- places *)
None == N("none", "", <<>>)
One(x) == N("some", "", <<x>>)
Args(ts) == IF Len(ts) = 1 THEN Cons(ts[1], HNil("none")) ELSE Cons(ts[1], Cons(ts[2], IF Len(ts) = 2 THEN HNil("none") ELSE Cons(ts[3], HNil("none"))))
It(e) == N("item", "", <<e, None>>)
ItAs(e, a) == N("item", "", <<e, N("as", "", <<a>>)>>)
ItBare(e, a) == N("item", "", <<e, N("bare", "", <<a>>)>>)
Src(t) == N("tsrc", "", <<t, None>>)
SrcAs(t, a) == N("tsrc", "", <<t, N("bare", "", <<a>>)>>)
Fr(src) == N("from", "", <<src, HNil("none")>>)
FT == Fr(Src(C("t")))
Full(items, from, where, group, having, order) == Select(None, items, from, where, group, having, order, None, None)
Simple(items, from) == Full(items, from, None, None, None, None)
OItem(e) == N("oitem", "", <<e, None, None>>)
Cmp(op, x, y) == N("cmp", op, <<x, y>>)
Places == 1..22
PlaceOf(i, x, y, z) ==
  LET a == T(x)
      b == T(y)
      c == T(z)
  IN CASE i = 1 -> Simple(Args(<<It(a), It(b), It(c)>>), None)
       [] i = 2 -> Simple(Args(<<ItAs(a, NameOf(y)), ItBare(c, NameOf(x))>>), FT)
       [] i = 3 -> Full(Args(<<It(C("c"))>>), FT, One(N("and", "", <<Cmp("=", C("c"), a), N("or", "", <<Cmp("<>", b, c), C("d")>>)>>)), None, None, None)
       [] i = 4 -> Simple(Args(<<It(N("func", "FOO", <<Args(<<a, b, c>>)>>)), It(C("d"))>>), FT)
       [] i = 5 -> Simple(Args(<<It(N("chain", "", <<NameOf(y), C("d")>>)), It(N("chain", "", <<C("t"), NameOf(z)>>))>>), Fr(SrcAs(NameOf(x), NameOf(y))))
       [] i = 6 -> Simple(Args(<<It(N("case", "", <<None, Cons(N("when", "", <<Cmp("=", a, b), c>>), HNil("none")), One(a)>>))>>), FT)
       [] i = 7 -> Full(Args(<<It(N("star", "", <<>>))>>), FT, One(N("in", "NOT IN", <<C("c"), Args(<<a, b, c>>)>>)), None, None, None)
       [] i = 8 -> Full(Args(<<It(N("ar", "||", <<a, N("ar", "+", <<b, c>>)>>))>>), FT, One(N("like", "LIKE", <<a, b>>)), None, None, None)
       [] i = 9 -> Simple(Args(<<It(N("psub", "", <<Simple(Args(<<It(a)>>), FT)>>)), It(b)>>),
                          Fr(N("sub", "", <<Simple(Args(<<ItAs(c, NameOf(x))>>), FT), None>>)))
       [] i = 10 -> Simple(Args(<<It(N("typed", "DATE", <<Sure(x)>>)), It(N("interval", "DAY", <<Sure(y)>>)), It(N("interval", "", <<Sure(z)>>))>>), FT)
       [] i = 11 -> Simple(Args(<<It(N("cast", "INT64", <<a>>)), It(N("index", "", <<C("c"), b>>)), It(N("array", "", <<Args(<<a, b, c>>)>>))>>), FT)
       [] i = 12 -> Full(Args(<<It(C("c")), It(C("d"))>>), FT, None, N("group", "BY", <<Args(<<a, b>>)>>), One(Cmp("=", a, C("d"))),
                         N("worder", "", <<Args(<<OItem(c), OItem(a)>>)>>))
       [] i = 13 -> Simple(Args(<<It(N("countd", "", <<Args(<<a, b>>)>>)),
                                  It(N("over", "", <<N("func", "SUM", <<Args(<<C("c")>>)>>), Args(<<a, b>>), N("worder", "", <<Args(<<OItem(c)>>)>>), None>>))>>), FT)
       [] i = 14 -> Simple(Args(<<It(a)>>), N("from", "", <<Src(C("t")), Args(<<N("join", "JOIN", <<Src(NameOf(y)), N("on", "", <<Cmp("=", b, c)>>)>>)>>)>>))
       [] i = 15 -> Full(Args(<<It(C("c"))>>), FT, One(N("between", "BETWEEN", <<a, b, c>>)), None, None, None)
       [] i = 16 -> Full(Args(<<It(C("c"))>>), FT, One(N("not", "", <<N("paren", "", <<Cmp("=", a, b)>>)>>)), None, One(N("isnull", "IS NULL", <<c>>)), None)
       [] i = 17 -> Simple(Args(<<It(N("tuple", "", <<Args(<<a, b>>)>>)), It(N("filter", "", <<N("func", "SUM", <<Args(<<C("c")>>)>>), Cmp("=", c, a)>>))>>), FT)
       [] i = 18 -> Simple(Args(<<It(N("aagg", "", <<None, a, None, N("worder", "", <<Args(<<OItem(b)>>)>>), None>>)), It(c)>>), FT)
       [] i = 19 -> Simple(Args(<<It(a)>>), Fr(N("unnest", "", <<Args(<<N("array", "", <<Args(<<b, c>>)>>)>>), N("as", "", <<NameOf(x)>>), None>>)))
       [] i = 20 -> Full(Args(<<It(C("c"))>>), FT, One(N("exists", "", <<Full(Args(<<It(a)>>), FT, One(N("and", "", <<Cmp("=", b, C("d")), c>>)), None, None, None)>>)),
                         None, None, None)
       [] i = 21 -> Simple(Args(<<It(N("neg", "-", <<N("index", "", <<C("c"), a>>)>>)), It(N("chain", "", <<N("index", "", <<C("c"), b>>), NameOf(z)>>))>>), FT)
       [] i = 22 -> Simple(Args(<<It(N("star", "", <<>>)), It(a)>>),
                           N("from", "", <<Src(C("t")), Args(<<N("join", "JOIN", <<SrcAs(NameOf(x), NameOf(y)), N("using", "", <<Args(<<NameOf(z)>>)>>)>>)>>)>>))
Of(ls, i) == N("query", "", <<None, PlaceOf(i, ls[1], ls[2], ls[3]), N("kw", ";", <<>>)>>)

(* -------------------------------------------------------------------- steps *)
Others == { Lit("", "'", <<"it", "''", "s">>), Lit("", "\"", <<"'">>), Lit("", "`", <<"a b">>), Lit("r", "'", <<>>) }
(* breadth first: one literal grows, the others are fixed *)
Init == /\ n = 0 /\ place \in Places
        /\ \E q \in QuoteSet \cup {""} : \E p \in (IF q = "" THEN Forms ELSE Prefixes(q)) : \E o \in {Lit("", "'", <<"it", "''", "s">>)} :
             lits \in { <<Lit(p, q, <<>>), o, o>>, <<o, Lit(p, q, <<>>), o>>, <<o, o, Lit(p, q, <<>>)>> }
Grown(l, c) == IF l.q = "" THEN l ELSE [l EXCEPT !.b = Append(@, c)]
Fixed(l) == l = Lit("", "'", <<"it", "''", "s">>)
Next == /\ n < MaxPieces
        /\ n' = n + 1
        /\ \E i \in 1..3 : ~Fixed(lits[i]) /\ lits[i].q # "" /\ \E c \in Pieces(lits[i].q) : lits' = [lits EXCEPT ![i] = Grown(@, c)]
        /\ UNCHANGED place
Spec == Init /\ [][Next]_vars

(* at random: all literals grow, from every place *)
Someone(x) == TLCEval(LET q == RandomElement(QuoteSet) IN
                    IF RandomElement(1..4) = 1 THEN Lit(RandomElement(Forms), "", <<>>) ELSE Lit(RandomElement(Prefixes(q)), q, <<>>))
InitSome == n = 0 /\ place \in Places /\ lits = <<Someone(1), Someone(2), Someone(3)>>
NextSome == /\ n < MaxPieces
            /\ n' = n + 1
            /\ \E j \in 1..Fanout : \E i \in {RandomElement(1..3)} : \E c \in {RandomElement(Pieces(IF lits[i].q = "" THEN "'" ELSE lits[i].q))} :
                 \E o \in {IF RandomElement(1..6) = 1 THEN Someone(n) ELSE lits[1 + (i % 3)]} :
                   lits' = [lits EXCEPT ![i] = Grown(@, c), ![1 + (i % 3)] = o]
            /\ place' = RandomElement(Places)
SpecSome == InitSome /\ [][NextSome]_vars

(* the literals of the query, as written *)
RECURSIVE Drop(_, _)
Drop(k, s) == IF k = 0 THEN s ELSE Drop(k - 1, Tail(s))
(* a reader that knows only where literals end finds the end of each of them at its last character *)
RECURSIVE EndOf(_, _, _)
EndOf(s, q, i) ==       \* the place of the quote that closes the literal, reading on from place i
  IF i > Len(s) THEN 0
  ELSE IF SubSeq(s, i, i) = Backslash THEN EndOf(s, q, i + 2)
  ELSE IF SubSeq(s, i, i) = q THEN (IF i < Len(s) /\ SubSeq(s, i + 1, i + 1) = q THEN EndOf(s, q, i + 2) ELSE i)
  ELSE EndOf(s, q, i + 1)
Closed == \A i \in 1..3 : lits[i].q # "" => LET t == Text(lits[i]) IN EndOf(t, lits[i].q, Len(lits[i].p) + 2) = Len(t)

Report == LET q == Of(lits, place) IN PrintT("@" \o ToJson([t |-> EncToks(Toks(q)), l |-> <<>>, e |-> <<>>, n |-> n]))
=============================================================================
