------------------------------ MODULE Dialect ------------------------------
(* The SELECT dialect as a graph of queries.  A query is a tree; some leaves are holes [h |-> TRUE] that
   carry a sort; filling a hole with one of the productions of its sort is the only kind of step.  Every
   tree is a complete query (a hole has a default reading), so every reachable state is a test case, and
   breadth-first search to depth d visits all queries with at most d features beyond the base.          *)
EXTENDS SqlText

CONSTANTS Pool,   \* which family of names is used
          Wrong   \* also make queries that only validation rejects (positions, LIMIT, joins)
(* in names and strings, # stands for a letter outside ASCII and ~ for a line end; the replay puts them in *)

Col == << <<"a", "b", "c", "d", "e", "g">>,
          <<"order_id", "fromage", "is_x", "android", "endpoint", "selected">>,
          <<"Alpha", "bRavo", "CHARLIE", "d_4", "#E", "Zz9">>,
          <<"quantity_shipped_to_warehouse", "b2", "total_amount_including_taxes", "identifier_of_the_customer",
            "e", "last_modification_timestamp">>,
          <<"day", "month", "date", "week", "timestamp", "string">>,
          <<"`a b`", "`from`", "`x,y`", "`select (`", "`#`", "`Q`">>,
          <<"{col}", "%s", ":id", "@var", "$1", "_partition_x">>,
          <<"a", "b", "a", "b", "c", "a">> >>[Pool]
Tab == << <<"t", "u", "w">>, <<"from_t", "selections", "joins">>, <<"Schema1", "uTab", "W">>,
          <<"table_with_a_rather_long_name_for_a_table", "u", "warehouse_shipment_events">>,
          <<"year", "quarter", "hours">>, <<"`proj.data.tab`", "`u-1`", "`w x`">>,
          <<"{table}", "u", "$w">>, <<"t", "u", "t">> >>[Pool]
Als == << <<"x", "y", "z">>, <<"ordering", "limits", "grp">>, <<"X", "yY", "Z1">>,
          <<"alias_that_is_long_as_well", "y", "another_alias_of_some_length">>,
          <<"x", "y", "z">>, <<"`x 1`", "`y`", "z">>, <<"{x}", "y", "z">>,
          <<"x", "y", "b">> >>[Pool]
Fun == << <<"FOO", "SUM">>, <<"ORDERED", "FROM_UNIXTIME">>, <<"FOO_BAR", "COALESCE">>,
          <<"SAFE_DIVIDE_AND_ROUND_RESULT", "GREATEST">>, <<"DATE", "IF">>, <<"FOO", "SUM">>, <<"FOO", "MAX">>, <<"FOO", "SUM">> >>[Pool]

\* a frame is a sequence of keywords and expressions
N(o, v, k) == [s |-> "", o |-> o, v |-> v, k |-> k, h |-> FALSE]
H(s, o, v) == [s |-> s, o |-> o, v |-> v, k |-> <<>>, h |-> TRUE]
HK(s, o, v, k) == [s |-> s, o |-> o, v |-> v, k |-> k, h |-> TRUE]
C(v) == N("col", v, <<>>)

Frame(parts) == N("frame", "", parts)
Kws(v) == N("kw", v, <<>>)

(* holes *)
HB(n) == H("bool", "col", Col[n])     \* any condition or expression
HC(n) == H("cmp", "col", Col[n])      \* operand of AND/OR/NOT
HA(n) == H("arith", "col", Col[n])    \* operand of a comparison
HT(n) == H("term", "col", Col[n])     \* operand of arithmetic
HNil(s) == H(s, "nil", "")
HNo(s) == H(s, "none", "")
HTab(n) == H("tab", "col", Tab[n])
HSrc(n) == HK("src", "tsrc", "", <<HTab(n), HNo("talias")>>)
Cons(x, tl) == N("cons", "", <<x, tl>>)
Item(e) == HK("item", "item", "", <<e, HNo("alias")>>)   \* may still become a star
List1(n, tail) == Cons(HB(n), HNil(tail))

Select(mod, items, from, where, group, having, order, limit, offset) ==
  N("select", "", <<mod, items, from, where, group, having, HNil("sets"), order, limit, offset>>)
(* a branch of a set operation that is not in brackets ends with its HAVING *)
Branch(items, from) ==
  N("select", "", <<HNo("mod"), items, from, HNo("where"), HNo("group"), HNo("having"), HNil("none"), HNo("none"),
                    HNo("none"), HNo("none")>>)
Sel(items, from) == Select(HNo("mod"), items, from, HNo("where"), HNo("group"), HNo("having"), HNo("order"),
                           HNo("limit"), HNo("offset"))
Items1(n) == Cons(Item(HB(n)), HNil("items"))
ItemsOf(e) == Cons(Item(e), HNil("items"))
From(src) == N("from", "", <<src, HNil("joins")>>)
FromT(n) == From(HSrc(n))
SubQ(n) == Sel(Items1(n), FromT(2))
SubNoFrom(n) == Sel(Items1(n), HNo("from"))
Query(stmt) == N("query", "", <<HNo("with"), stmt, HNo("semi")>>)

(* ---------------------------------------------------------------- productions *)
UnsProds ==      \* operands of a sign
  { N("chain", "", <<C(Als[1]), C(Col[2])>>), N("func", Fun[1], <<HNil("args")>>), N("paren", "", <<HB(6)>>) }
TermProds ==
  { N("chain", "", <<C(Als[1]), C(Col[2])>>),
    N("chain", "", <<C("s1"), C(Tab[1]), C(Col[3])>>),
    N("str", "'x'", <<>>), N("str", "\"Sel ect, (\"", <<>>), N("str", "''", <<>>),
    N("str", "r'\\d+ and'", <<>>),
    N("num", "1", <<>>), N("num", "2.5", <<>>), N("num", "-3", <<>>), N("num", "-0.5", <<>>),
    N("bool", "TRUE", <<>>), N("bool", "FALSE", <<>>), N("null", "", <<>>),
    N("func", Fun[1], <<HNil("args")>>),
    N("func", Fun[2], <<List1(5, "args")>>),
    N("func", Fun[1], <<Cons(HB(1), List1(2, "args"))>>),
    N("count", "", <<N("star", "", <<>>)>>),
    N("countd", "", <<List1(4, "args")>>),
    N("cast", "INT64", <<HB(1)>>),
    N("aagg", "", <<HNo("distinct"), HB(2), HNo("nulls"), HNo("aorder"), HNo("alimit")>>),
    N("paren", "", <<HB(6)>>),
    N("psub", "", <<SubQ(3)>>),
    N("case", "", <<HNo("casex"), Cons(N("when", "", <<HB(4), HB(1)>>), HNil("whens")), HNo("else")>>),
    N("over", "", <<N("func", Fun[2], <<List1(2, "args")>>), HNil("part"), HNo("worder"), HNo("frame")>>),
    N("over", "", <<N("func", "ROW_NUMBER", <<HNil("args")>>), N("cons", "", <<HB(3), HNil("part")>>),
                    N("worder", "", <<Cons(N("oitem", "", <<HB(1), HNo("dir"), HNo("nulls2")>>), HNil("oitems"))>>), HNo("frame")>>),
    N("index", "", <<C(Col[2]), HB(1)>>),
    N("index", "", <<N("func", Fun[1], <<List1(1, "args")>>), N("func", "OFFSET", <<Cons(N("num", "0", <<>>), HNil("args"))>>)>>),
    N("array", "", <<List1(3, "args")>>),
    N("filter", "", <<N("func", Fun[2], <<List1(1, "args")>>), HB(2)>>),
    N("extract", "YEAR", <<HA(5)>>), N("extract", "DOW", <<HA(2)>>), N("extract", "DAY_HOUR", <<HA(1)>>),
    N("tuple", "", <<Cons(HB(1), List1(2, "args"))>>),
    N("str", "'\"'", <<>>), N("str", "\"'\"", <<>>), N("str", "'`'", <<>>),
    N("chain", "", <<C(Als[1]), C(Col[2]), C(Col[3]), C(Col[4])>>),
    N("chain", "", <<N("index", "", <<C(Col[1]), N("num", "0", <<>>)>>), C(Col[3])>>),
    N("chain", "", <<C("net"), N("func", "HOST", <<List1(1, "args")>>)>>),
    N("chain", "", <<N("func", Fun[1], <<List1(3, "args")>>), C(Col[5])>>),
    N("typed", "DATE", <<N("str", "'2020-01-01'", <<>>)>>), N("typed", "TIMESTAMP", <<N("str", "'2020-01-01 10:00:00'", <<>>)>>),
    N("interval", "DAY", <<N("num", "1", <<>>)>>), N("interval", "", <<N("str", "'1 day'", <<>>)>>),
    N("neg", "-", <<H("uns", "col", Col[3])>>), N("neg", "+", <<H("uns", "col", Col[1])>>),
    N("num", "1.50", <<>>), N("num", "1e-5", <<>>), N("num", "007", <<>>), N("num", "2E10", <<>>), N("num", ".5", <<>>),
    N("num", "+4", <<>>),
    N("bool", "YES", <<>>), N("bool", "NO", <<>>),
    N("str", "'from'", <<>>), N("str", "'('", <<>>), N("str", "')'", <<>>), N("str", "','", <<>>), N("str", "'it''s'", <<>>),
    N("str", "'a\\'b'", <<>>), N("str", "\"x'y\"", <<>>), N("str", "'a  b'", <<>>), N("str", "'-- x'", <<>>), N("str", "';'", <<>>),
    N("str", "'case when'", <<>>), N("str", "'a~  b'", <<>>), N("str", "R'\\('", <<>>), N("str", "`b c`", <<>>),
    N("funcd", Fun[2], <<List1(2, "args")>>),
    N("func", "NORMALIZE", <<Cons(HB(1), Cons(N("kwname", "NFC", <<>>), HNil("none")))>>),
    N("func", "TIMESTAMP_TRUNC", <<Cons(N("func", Fun[1], <<List1(1, "args")>>), Cons(N("kwname", "DAY", <<>>), HNil("none")))>>),
    N("func", "STRUCT", <<Cons(N("ralias", "", <<HB(1), C(Als[2])>>), List1(2, "args"))>>),
    N("arrsub", "ARRAY", <<SubQ(4)>>), N("arrsub", Fun[1], <<SubNoFrom(2)>>),
    N("castx", "NUMERIC", <<HB(3)>>), N("castx", "DOUBLE PRECISION", <<HA(3)>>), N("castx", "ARRAY", <<HA(3)>>),
    N("castx", "FORMAT", <<HA(2)>>), N("castx", "STRUCT", <<HA(1)>>), N("castx", "QUOTED", <<HA(4)>>),
    N("kwname", "_TABLE_SUFFIX", <<>>),
    N("countd", "", <<Cons(HB(1), List1(4, "args"))>>) }
ArithProds ==
  TermProds \cup
  { N("ar", op, <<HT(1), HA(2)>>) : op \in {"+", "-", "*", "/", "%", "||", "&", "|", "^", "<<", ">>"} }
CmpProds ==
  ArithProds \cup
  { N("cmp", op, <<HA(1), HA(2)>>) : op \in {"=", "<", ">", "<=", ">=", "<>", "!="} } \cup
  { N("like", "LIKE", <<HA(3), N("str", "'%x_'", <<>>)>>),
    N("isnull", "IS NULL", <<HA(2)>>), N("isnull", "IS NOT NULL", <<HA(4)>>),
    N("in", "IN", <<HA(1), Cons(HB(2), List1(3, "args"))>>), N("in", "NOT IN", <<HA(1), Cons(N("num", "1", <<>>), HNil("args"))>>),
    N("insub", "IN", <<HA(5), SubQ(1)>>), N("insub", "NOT IN", <<HA(2), SubQ(4)>>),
    N("like", "NOT LIKE", <<HA(4), HA(2)>>), N("like", "CONTAINS", <<HA(1), N("str", "'x'", <<>>)>>),
    N("like", "NOT CONTAINS", <<HA(1), HA(5)>>), N("like", "IS", <<HA(1), N("bool", "TRUE", <<>>)>>),
    N("like", "IS NOT", <<HA(1), N("bool", "FALSE", <<>>)>>),
    N("like", "IN", <<HA(2), N("func", "UNNEST", <<List1(3, "args")>>)>>),
    N("like", "NOT IN", <<HA(2), N("func", "UNNEST", <<Cons(N("array", "", <<List1(3, "args")>>), HNil("none"))>>)>>),
    N("in", "IN", <<N("tuple", "", <<Cons(HA(1), List1(2, "args"))>>), Cons(N("tuple", "", <<Cons(HB(3), List1(4, "args"))>>), HNil("none"))>>),
    N("between", "NOT BETWEEN", <<HA(4), HA(5), HA(1)>>),
    N("between", "BETWEEN", <<HA(1), HA(2), HA(3)>>),
    N("not", "", <<HC(2)>>),
    N("not", "", <<N("paren", "", <<HB(3)>>)>>),
    N("exists", "", <<SubQ(5)>>) }
BoolProds ==
  CmpProds \cup { N(op, "", <<HC(1), HB(2)>>) : op \in {"and", "or"} }

AliasProds == { N("as", "", <<C(Als[2])>>), N("bare", "", <<C(Als[1])>>),
                N("as", "", <<N("str", "'My Alias'", <<>>)>>), N("as", "", <<N("str", "`b 1`", <<>>)>>),
                N("bare", "", <<N("str", "\"q\"", <<>>)>>) }
ItemTailProds ==
  { Cons(Item(HB(4)), HNil("items")),
    Cons(N("star", "", <<>>), HNil("items")) }
StarProds == { N("star", "", <<>>), N("chain", "", <<C(Als[1]), N("star", "", <<>>)>>),
               N("except", "", <<N("star", "", <<>>), Cons(C(Col[2]), HNil("eargs"))>>),
               N("replace", "", <<N("star", "", <<>>), Cons(N("ralias", "", <<HB(1), C(Col[2])>>), HNil("rargs"))>>) }

TabProds ==
  { N("chain", "", <<C("s1"), C(Tab[1])>>), N("chain", "", <<C("p1"), C("d_2"), C(Tab[2])>>),
    N("str", "`p.d.t`", <<>>), N("brk", "", <<C("p1:d"), C("t")>>) }
SrcProds == { N("tsrc", "", <<HTab(3), N("as", "", <<C(Als[1])>>)>>),
              N("psrc", "", <<HK("src1", "tsrc", "", <<HTab(3), HNo("talias")>>), HNil("joins")>>),
              N("sub", "", <<SubQ(2), HNo("talias")>>),
              N("sub", "", <<SubNoFrom(1), N("bare", "", <<C(Als[2])>>)>>),
              N("unnest", "", <<List1(3, "args"), HNo("talias"), HNo("woff")>>),
              N("unnest", "", <<List1(2, "args"), HNo("none"), N("woff", "", <<N("as", "", <<C(Als[3])>>)>>)>>) }
JoinKinds == { "JOIN", "LEFT JOIN", "FULL OUTER JOIN", "INNER JOIN", "RIGHT JOIN", "LEFT OUTER JOIN", "JOIN EACH" }
On(n) == N("on", "", <<HB(n)>>)
Num(v) == N("num", v, <<>>)
Par(t) == N("paren", "", <<t>>)
WrongPositions == IF ~Wrong THEN {} ELSE { Num("0"), Num("2"), Num("3"), Par(Num("2")), Par(Par(Num("4"))), Num("-1"),
                                           N("tuple", "", <<Cons(Num("1"), Cons(Num("3"), HNil("none")))>>) }
WrongBounds == IF ~Wrong THEN {} ELSE
  { Num("0"), Num("-1"), Num("2.5"), Num("+4"), C(Col[1]), N("str", "'5'", <<>>), N("null", "", <<>>), N("bool", "TRUE", <<>>),
    Par(Par(Num("-2"))), Par(C(Col[2])), N("ar", "+", <<Num("1"), Num("2")>>), N("func", Fun[1], <<HNil("none")>>),
    N("chain", "", <<C(Als[1]), C(Col[2])>>), N("cast", "INT64", <<Num("1")>>), Num("-0.5"),
    N("psub", "", <<SubNoFrom(1)>>), Par(N("str", "'5'", <<>>)), N("neg", "-", <<C(Col[1])>>) }
Using == N("using", "", <<Cons(C(Col[2]), HNil("uargs"))>>)

SetKinds == { "UNION ALL", "EXCEPT DISTINCT", "UNION", "INTERSECT" }

Prods(s) ==
  CASE s = "term" -> TermProds
    [] s = "arith" -> ArithProds
    [] s = "cmp" -> CmpProds
    [] s = "bool" -> BoolProds
    [] s = "item" -> StarProds
    [] s = "alias" -> AliasProds
    [] s = "items" -> ItemTailProds
    [] s = "args" -> { List1(6, "args") }
    [] s = "eargs" -> { Cons(C(Col[3]), HNil("eargs")) }
    [] s = "uargs" -> { Cons(C(Col[3]), HNil("uargs")) }
    [] s = "rargs" -> { Cons(N("ralias", "", <<HB(4), C(Col[4])>>), HNil("rargs")) }
    [] s = "distinct" -> { N("kw", "DISTINCT", <<>>) }
    [] s = "nulls" -> { N("kw", "IGNORE NULLS", <<>>), N("kw", "RESPECT NULLS", <<>>) }
    [] s = "aorder" -> { N("worder", "", <<Cons(N("oitem", "", <<HB(1), HNo("dir"), HNo("nulls2")>>), HNil("oitems"))>>) }
    [] s = "alimit" -> { N("num", "10", <<>>), N("num", "0", <<>>) }
    [] s = "casex" -> { N("some", "", <<HB(5)>>) }
    [] s = "whens" -> { Cons(N("when", "", <<HB(2), HB(3)>>), HNil("whens")) }
    [] s = "else" -> { N("some", "", <<HB(6)>>) }
    [] s = "part" -> { Cons(HB(1), HNil("part")) }
    [] s = "worder" -> { N("worder", "", <<Cons(N("oitem", "", <<HB(2), HNo("dir"), HNo("nulls2")>>), HNil("oitems"))>>) }
    [] s = "frame" -> { Frame(<<Kws("ROWS BETWEEN"), Num("1"), Kws("PRECEDING AND UNBOUNDED FOLLOWING")>>),
                        Frame(<<Kws("ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW")>>),
                        Frame(<<Kws("RANGE"), Num("1"), Kws("PRECEDING")>>),
                        Frame(<<Kws("RANGE BETWEEN"), N("interval", "", <<N("str", "'1  day, and row'", <<>>)>>), Kws("PRECEDING AND"),
                                N("interval", "DAY", <<N("str", "'1'", <<>>)>>), Kws("FOLLOWING EXCLUDE TIES")>>),
                        Frame(<<Kws("ROWS BETWEEN"), C("{row}"), Kws("PRECEDING AND"), C("Kept"), Kws("FOLLOWING")>>) }
    [] s = "dir" -> { N("kw", "ASC", <<>>), N("kw", "DESC", <<>>) }
    [] s = "oitems" -> { Cons(N("oitem", "", <<p, HNo("dir"), HNo("nulls2")>>), HNil("oitems")) : p \in WrongPositions } \cup
                       { Cons(N("oitem", "", <<HB(3), HNo("dir"), HNo("nulls2")>>), HNil("oitems")) }
    [] s = "mod" -> { N("kw", "ALL", <<>>), N("kw", "DISTINCT", <<>>), N("diston", "", <<List1(1, "args")>>) }
    [] s = "from" -> { FromT(1) }
    [] s = "tab" -> TabProds
    [] s = "src" -> SrcProds
    [] s = "src1" -> { p \in SrcProds : p.o # "psrc" }
    [] s = "uns" -> UnsProds
    [] s = "sets" -> { N("cons", "", <<N("set", x, <<Branch(Items1(3), FromT(2))>>), HNil("sets")>>) : x \in SetKinds } \cup
                     { N("cons", "", <<N("set", "UNION ALL", <<N("psub", "", <<SubQ(4)>>)>>), HNil("sets")>>),
                       N("cons", "", <<N("set", "UNION DISTINCT", <<Branch(Items1(2), HNo("from"))>>), HNil("sets")>>) }
    [] s = "nulls2" -> { N("kw", "NULLS FIRST", <<>>), N("kw", "NULLS LAST", <<>>) }
    [] s = "talias" -> { N("as", "", <<C(Als[2])>>), N("bare", "", <<C(Als[1])>>),
                         N("as", "", <<N("str", "`b 1`", <<>>)>>) }
    [] s = "woff" -> { N("woff", "", <<HNo("talias2")>>) }
    [] s = "talias2" -> { N("as", "", <<C(Als[3])>>), N("bare", "", <<C(Als[3])>>) }
    [] s = "joins" ->
         { N("cons", "", <<N("join", j, <<HSrc(2), On(1)>>), HNil("joins")>>) : j \in JoinKinds } \cup
         (IF ~Wrong THEN {} ELSE
          { N("cons", "", <<N("join", j, <<HSrc(2), N("none", "", <<>>)>>), HNil("joins")>>) : j \in JoinKinds }) \cup
         { N("cons", "", <<N("join", "JOIN", <<HSrc(2), Using>>), HNil("joins")>>),
           N("cons", "", <<N("join", "CROSS JOIN", <<HSrc(2), N("none", "", <<>>)>>), HNil("joins")>>),
           N("cons", "", <<N("join", ",", <<HSrc(2), N("none", "", <<>>)>>), HNil("joins")>>) }
    [] s = "where" -> { N("some", "", <<HB(1)>>) }
    [] s = "group" -> { N("group", "BY", <<Cons(p, HNil("gitems"))>>) : p \in WrongPositions } \cup { N("group", "BY", <<Cons(HB(1), HNil("gitems"))>>),
                        N("group", "EACH BY", <<Cons(C(Col[2]), HNil("gitems"))>>),
                        N("group", "BY ROLLUP", <<Cons(N("paren", "", <<HT(2)>>), HNil("ritems"))>>),
                        N("group", "BY ROLLUP", <<Cons(N("tuple", "", <<Cons(HT(2), List1(1, "args"))>>), HNil("ritems"))>>) }
    [] s = "ritems" -> { Cons(N("paren", "", <<HB(4)>>), HNil("ritems")), Cons(C(Col[3]), HNil("ritems")) }
    [] s = "gitems" -> { Cons(p, HNil("gitems")) : p \in WrongPositions } \cup
                       { Cons(HB(4), HNil("gitems")), Cons(N("num", "1", <<>>), HNil("gitems")) }
    [] s = "having" -> { N("some", "", <<HB(2)>>) }
    [] s = "order" -> { N("worder", "", <<Cons(N("oitem", "", <<p, HNo("dir"), HNo("nulls2")>>), HNil("oitems"))>>) : p \in WrongPositions } \cup
                      { N("worder", "", <<Cons(N("oitem", "", <<HB(1), HNo("dir"), HNo("nulls2")>>), HNil("oitems"))>>) }
    [] s = "limit" -> WrongBounds \cup { N("num", "10", <<>>), N("kw", "ALL", <<>>), N("paren", "", <<N("num", "5", <<>>)>>) }
    [] s = "offset" -> WrongBounds \cup { N("num", "3", <<>>), N("paren", "", <<N("num", "0", <<>>)>>) }
    [] s = "semi" -> { N("kw", ";", <<>>) }
    [] s = "with" -> { Cons(N("cte", Tab[1], <<SubQ(2)>>), HNil("ctes")),
                       Cons(N("cte", Tab[1], <<N("query", "", <<HNo("with"), SubQ(2), N("none", "", <<>>)>>)>>), HNil("ctes")) }
    [] s = "ctes" -> { Cons(N("cte", Tab[2], <<SubNoFrom(1)>>), HNil("ctes")) }
    [] OTHER -> {}

(* all trees one step away *)
RECURSIVE Edits(_)
Edits(t) ==
  (IF t.h THEN Prods(t.s) ELSE {}) \cup
  UNION { { [t EXCEPT !.k[x] = e, !.h = FALSE] : e \in Edits(t.k[x]) } : x \in DOMAIN t.k }

RECURSIVE Flatten(_)
Flatten(t) == IF t.o = "cons" THEN << t.k[1] >> \o Flatten(t.k[2]) ELSE <<>>
(* a star without FROM cannot be followed by EXCEPT DISTINCT *)
StarEnd(t) == t.o = "star" \/ (t.o = "chain" /\ Lst(t.k).o = "star")
BareStar(t) == /\ t.o = "select" /\ \A x \in 3..6 : t.k[x].o = "none"
               /\ LET last == Lst(Flatten(t.k[2])) IN StarEnd(last) \/ (last.o = "item" /\ StarEnd(last.k[1]))
RECURSIVE WellFormed(_)
WellFormed(t) ==
  /\ t.o = "select" =>
       LET sets == Flatten(t.k[7])
       IN \A x \in DOMAIN sets :
            sets[x].v = "EXCEPT DISTINCT" => ~BareStar(IF x = 1 THEN t ELSE sets[x - 1].k[1])
  \* the condition after two joins belongs to the first, USING would be about other sources
  /\ t.o \in {"from", "psrc"} =>
       LET js == Flatten(t.k[2])
       IN \A x \in DOMAIN js : x > 1 /\ js[x].k[2].o = "using" =>
            js[x - 1].k[2].o # "none" \/ js[x - 1].v \in {"CROSS JOIN", ","}
  /\ \A x \in DOMAIN t.k : WellFormed(t.k[x])
RECURSIVE Holes(_), HolesIn(_, _), HoleAt(_, _), HoleIn(_, _, _), Fill(_, _, _), FillIn(_, _, _, _)
(* the number of holes, the i-th one from the left, and the tree with it filled *)
HolesIn(ks, x) == IF x > Len(ks) THEN 0 ELSE Holes(ks[x]) + HolesIn(ks, x + 1)
Live(t) == t.h /\ t.s # "none"
Holes(t) == (IF Live(t) THEN 1 ELSE 0) + HolesIn(t.k, 1)
HoleIn(ks, x, i) == LET c == Holes(ks[x]) IN IF i <= c THEN HoleAt(ks[x], i) ELSE HoleIn(ks, x + 1, i - c)
HoleAt(t, i) == IF Live(t) THEN (IF i = 1 THEN t.s ELSE HoleIn(t.k, 1, i - 1)) ELSE HoleIn(t.k, 1, i)
FillIn(t, x, i, p) == LET c == Holes(t.k[x])
                      IN IF i <= c THEN [t EXCEPT !.k[x] = Fill(t.k[x], i, p), !.h = FALSE] ELSE FillIn(t, x + 1, i - c, p)
Fill(t, i, p) == IF Live(t) THEN (IF i = 1 THEN p ELSE FillIn(t, 1, i - 1, p)) ELSE FillIn(t, 1, i, p)
=============================================================================
