-------------------------------- MODULE Words --------------------------------
(* The vocabulary: every word the dialect gives a meaning to, in every role it has, and the same words as names where
   they have no meaning.  A state is a query with slots (three expressions, two names, a join, a set operator, a frame,
   an order and a type), each filled with a word of its vocabulary, at one of several places.  Breadth first, one slot
   takes every word of its vocabulary in every place; at random, all of them change.                                 *)
EXTENDS Semantics, Json, Randomization

CONSTANTS MaxDepth, Fanout
VARIABLES slots, place, n
vars == <<slots, place, n>>

(* --------------------------------------------------------------- vocabulary *)
ExtractWords == {"MICROSECOND", "SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "MONTH", "QUARTER", "YEAR", "SECOND_MICROSECOND",
  "MINUTE_MICROSECOND", "MINUTE_SECOND", "HOUR_MICROSECOND", "HOUR_SECOND", "HOUR_MINUTE", "DAY_MICROSECOND", "DAY_SECOND",
  "DAY_MINUTE", "DAY_HOUR", "YEAR_MONTH", "DAYOFMONTH", "DAYOFWEEK", "DAYOFYEAR", "DATE", "TIME", "DATETIME", "NANOSECOND",
  "MICROSECONDS", "MILLISECOND", "MILLISECONDS", "ISOWEEK", "ISOYEAR", "ISODOW", "DOW", "DOY", "DECADE", "CENTURY",
  "MILLENNIUM", "EPOCH", "TIMEZONE", "TIMEZONE_HOUR", "TIMEZONE_MINUTE"}
TruncWords == {"MICROSECOND", "MILLISECOND", "SECOND", "MINUTE", "HOUR", "DAY", "WEEK", "ISOWEEK", "MONTH", "QUARTER", "YEAR",
  "ISOYEAR"}
TypeWords == {"INT", "INT64", "INTEGER", "BIGINT", "SMALLINT", "FLOAT", "FLOAT64", "REAL", "DOUBLE", "NUMERIC", "BIGNUMERIC",
  "DECIMAL", "STRING", "TEXT", "VARCHAR", "CHAR", "BYTES", "BOOL", "BOOLEAN", "DATE", "DATETIME", "TIME", "TIMESTAMP",
  "GEOGRAPHY", "JSON", "UUID", "UNSIGNED", "INTERVAL", "DAY", "MONTH"}
FunctionWords == {"ABS", "ANY_VALUE", "APPROX_QUANTILES", "AVG", "COALESCE", "CONCAT", "COUNTIF", "DATE", "DATE_ADD", "DATE_DIFF",
  "DATETIME", "EXTRACT_ALL", "FIRST", "FIRST_VALUE", "FORMAT", "GREATEST", "IF", "IFNULL", "INDEX", "LAG", "LAST", "LEFT",
  "LENGTH", "LOWER", "MAX", "MIN", "MOD", "NOW", "NTILE", "NULLIF", "ORDINAL", "RANK", "REGEXP_EXTRACT", "REPLACE",
  "RIGHT", "ROUND", "ROW_NUMBER", "SAFE_CAST_TO", "SAFE_OFFSET", "STRUCT", "SUBSTR", "SUM", "TIME", "TIMESTAMP", "TO_JSON",
  "TRIM", "UPPER", "VALUES", "WEEK", "YEAR", "ROWS", "RANGE", "PARTITION", "USER", "LAST_VALUE", "CONTAINS_SUBSTR",
  "ISNULL", "NOTNULL", "INSTR", "LIKELY", "ORDERS", "UNIONS", "ASCII", "ALLY", "ENDS_WITH", "WITHIN", "ONCE", "BYTE"}
TypedWords == {"DATE", "TIME", "DATETIME", "TIMESTAMP"}
BoolWords == {"TRUE", "FALSE", "YES", "NO"}
CmpWords == {"=", "<", ">", "<=", ">=", "<>", "!="}
LikeWords == {"LIKE", "NOT LIKE", "CONTAINS", "NOT CONTAINS"}
ArWords == {"+", "-", "*", "/", "%", "||", "&", "|", "^", "<<", ">>"}
Soft == {"microsecond", "second", "minute", "hour", "day", "week", "month", "quarter", "year", "date", "time", "datetime",
  "isoweek", "dow", "epoch", "timezone", "Day", "Date",
  "int", "float", "int64", "string", "timestamp", "numeric", "decimal", "bool", "bytes", "geography", "json", "interval",
  "String", "Timestamp",
  "first", "last", "rows", "range", "unbounded", "preceding", "following", "current", "row", "exclude", "ties", "others",
  "filter", "partition", "array", "struct", "ignore", "respect", "format", "value", "values", "type", "key", "id",
  "name", "index", "user", "view", "start", "lateral", "window", "safe", "ordinal", "t", "f", "y", "n", "off", "extract",
  "count", "array_agg", "e", "r", "b", "x", "rb"}
(* names that are words of the dialect where an expression stands *)
Pseudo == {"nfc", "nfd", "nfkc", "nfkd", "monday", "tuesday", "wednesday", "thursday", "friday", "saturday", "sunday", "yes", "no",
           "Monday", "No"}
PseudoUpper == [w \in Pseudo |->
  CASE w = "nfc" -> "NFC" [] w = "nfd" -> "NFD" [] w = "nfkc" -> "NFKC" [] w = "nfkd" -> "NFKD" [] w \in {"monday", "Monday"} -> "MONDAY"
    [] w = "tuesday" -> "TUESDAY" [] w = "wednesday" -> "WEDNESDAY" [] w = "thursday" -> "THURSDAY" [] w = "friday" -> "FRIDAY"
    [] w = "saturday" -> "SATURDAY" [] w = "sunday" -> "SUNDAY" [] w = "yes" -> "YES" [] w \in {"no", "No"} -> "NO"]
Joins == {"JOIN", "INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "LEFT OUTER JOIN", "RIGHT OUTER JOIN", "FULL OUTER JOIN",
  "JOIN EACH", "LEFT JOIN EACH", "INNER JOIN EACH", "LEFT OUTER JOIN EACH", "CROSS JOIN", ","}
SetWords == {"UNION", "UNION ALL", "UNION DISTINCT", "EXCEPT", "EXCEPT ALL", "EXCEPT DISTINCT", "INTERSECT", "INTERSECT ALL",
  "INTERSECT DISTINCT"}

W(v) == N("kwname", v, <<>>)
Num1 == N("num", "1", <<>>)
Str1 == N("str", "'x'", <<>>)
None == N("none", "", <<>>)
One(e) == N("some", "", <<e>>)
RECURSIVE Listed(_)
Listed(ts) == IF ts = <<>> THEN HNil("none") ELSE Cons(Head(ts), Listed(Tail(ts)))
A == C("a")
B == C("b")
Exprs ==
  { N("extract", w, <<A>>) : w \in ExtractWords } \cup
  { N("interval", w, <<Num1>>) : w \in ExtractWords } \cup
  { N("interval", w, <<Str1>>) : w \in {"DAY", "YEAR_MONTH", "MILLISECOND"} } \cup
  { N("func", "TIMESTAMP_TRUNC", <<Listed(<<A, W(w)>>)>>) : w \in TruncWords } \cup
  { N("func", "DATE_TRUNC", <<Listed(<<A, C(w)>>)>>) : w \in {"day", "Week", "MONTH", "isoweek", "Quarter", "year"} } \cup
  { N("func", "DATE_DIFF", <<Listed(<<A, B, C(w)>>)>>) : w \in {"day", "HOUR", "Month", "millisecond", "dayofyear"} } \cup
  { N("cast", w, <<A>>) : w \in TypeWords } \cup
  { N("func", w, <<Listed(<<>>)>>) : w \in FunctionWords } \cup
  { N("func", w, <<Listed(<<A, B>>)>>) : w \in FunctionWords } \cup
  { N("funcd", w, <<Listed(<<A>>)>>) : w \in {"SUM", "STRING_AGG", "MAX", "AVG", "ARRAY_CONCAT_AGG"} } \cup
  { C(w) : w \in Niladic } \cup { C(w) : w \in Soft } \cup
  { N("chain", "", <<C("t"), C(w)>>) : w \in Soft } \cup { N("chain", "", <<C(w), C("a")>>) : w \in Soft } \cup
  { N("typed", w, <<Str1>>) : w \in TypedWords } \cup
  { N("bool", w, <<>>) : w \in BoolWords } \cup { N("null", "", <<>>) } \cup
  { N("cmp", w, <<A, B>>) : w \in CmpWords } \cup { N("like", w, <<A, Str1>>) : w \in LikeWords } \cup
  { N("like", "IS", <<A, N("bool", "TRUE", <<>>)>>), N("like", "IS NOT", <<A, N("bool", "FALSE", <<>>)>>),
    N("isnull", "IS NULL", <<A>>), N("isnull", "IS NOT NULL", <<B>>),
    N("between", "BETWEEN", <<A, Num1, B>>), N("between", "NOT BETWEEN", <<A, Num1, B>>),
    N("in", "IN", <<A, Listed(<<Num1, B>>)>>), N("in", "NOT IN", <<A, Listed(<<Str1>>)>>),
    N("not", "", <<A>>), N("kwname", "_TABLE_SUFFIX", <<>>), N("kwname", "_PARTITIONDATE", <<>>),
    N("countd", "", <<Listed(<<A>>)>>), N("count", "", <<N("star", "", <<>>)>>), N("func", "COUNT", <<Listed(<<A>>)>>) } \cup
  { N("func", "NORMALIZE", <<Listed(<<A, W(w)>>)>>) : w \in {"NFC", "NFD", "NFKC", "NFKD"} } \cup
  { N("func", "DATE_TRUNC", <<Listed(<<A, N("func", "WEEK", <<Listed(<<W(w)>>)>>)>>)>>)
      : w \in {"MONDAY", "TUESDAY", "WEDNESDAY", "THURSDAY", "FRIDAY", "SATURDAY", "SUNDAY"} } \cup
  { N("aagg", "", <<N("none", "", <<>>), A, N("kw", w, <<>>), None, None>>) : w \in {"IGNORE NULLS", "RESPECT NULLS"} } \cup
  { N("ar", w, <<A, B>>) : w \in ArWords } \cup
  { N("neg", w, <<B>>) : w \in {"-", "+"} }
Names == Soft \cup Pseudo

Bounds1 == { <<"UNBOUNDED", "PRECEDING">>, <<"CURRENT", "ROW">>, <<"1", "PRECEDING">> }
Bounds2 == { <<"CURRENT", "ROW">>, <<"2", "FOLLOWING">>, <<"UNBOUNDED", "FOLLOWING">>, <<"1", "PRECEDING">> }
Excludes == { <<>>, <<"EXCLUDE", "CURRENT", "ROW">>, <<"EXCLUDE", "GROUP">>, <<"EXCLUDE", "TIES">>, <<"EXCLUDE", "NO", "OTHERS">> }
FrameWord(w) == IF w \in {"1", "2"} THEN N("num", w, <<>>) ELSE W(w)
FrameOf(ws) == Frame([x \in DOMAIN ws |-> FrameWord(ws[x])])
Frames ==
  { None } \cup
  { FrameOf(<<u>> \o b \o e) : u \in {"ROWS", "RANGE"}, b \in Bounds1, e \in Excludes } \cup
  { FrameOf(<<u, "BETWEEN">> \o b \o <<"AND">> \o c \o e) : u \in {"ROWS", "RANGE"}, b \in Bounds1, c \in Bounds2, e \in Excludes }
Orders == { <<d, m>> : d \in {"", "ASC", "DESC"}, m \in {"", "NULLS FIRST", "NULLS LAST"} }
Kw0(v) == IF v = "" THEN None ELSE N("kw", v, <<>>)
OItem(e, o) == N("oitem", "", <<e, Kw0(o[1]), Kw0(o[2])>>)

(* ------------------------------------------------------------------- places *)
Default == [x |-> A, y |-> B, z |-> N("cmp", "=", <<A, B>>), u |-> "c", v |-> "d", j |-> "JOIN", s |-> "UNION ALL", f |-> None,
            o |-> <<"", "">>]
Vocabulary == [x |-> Exprs, y |-> Exprs, z |-> Exprs, u |-> Names, v |-> Names, j |-> Joins, s |-> SetWords, f |-> Frames, o |-> Orders]
Tsrc(w) == N("tsrc", "", <<C(w), None>>)
TsrcBare(w, a) == N("tsrc", "", <<C(w), N("bare", "", <<C(a)>>)>>)
TsrcAs(w, a) == N("tsrc", "", <<C(w), N("as", "", <<C(a)>>)>>)
It(e) == N("item", "", <<e, None>>)
ItAs(e, a) == N("item", "", <<e, N("as", "", <<C(a)>>)>>)
ItBare(e, a) == N("item", "", <<e, N("bare", "", <<C(a)>>)>>)
Dot(q, c) == N("chain", "", <<C(q), C(c)>>)
Fr(src) == N("from", "", <<src, HNil("none")>>)
FrJ(src, js) == N("from", "", <<src, Listed(js)>>)
Full(mod, items, from, where, group, having, sets, order) ==
  N("select", "", <<mod, Listed(items), from, where, group, having, Listed(sets), order, None, None>>)
Simple(items, from) == Full(None, items, from, None, None, None, <<>>, None)
JoinOf(k, src, cond) == N("join", k, <<src, IF k \in {"CROSS JOIN", ","} THEN None ELSE cond>>)
On1(e) == N("on", "", <<e>>)
Sub(sel, a) == N("sub", "", <<sel, N("bare", "", <<C(a)>>)>>)
FT == Fr(Tsrc("t"))
WOrder(items) == N("worder", "", <<Listed(items)>>)

(* a name where an expression can stand *)
Cn(w) == IF w \in {"yes", "no", "No"} THEN N("bool", PseudoUpper[w], <<>>) ELSE IF w \in Pseudo THEN W(PseudoUpper[w]) ELSE C(w)

(* can stand to the left of an operator / between commas without brackets *)
Low == {"cmp", "like", "isnull", "between", "in", "not"}
Opd(e) == IF e.o \in Low THEN Par(e) ELSE e
Opd2(e) == IF e.o \in Low \cup {"ar"} THEN Par(e) ELSE e
Places == 1..14
PlaceOf(p, q) ==
  LET x == q.x y == q.y z == q.z u == q.u v == q.v
  IN
  CASE p = 1 -> Full(None, <<It(x), ItAs(y, u)>>, Fr(TsrcAs(v, u)), One(z), None, None, <<>>, None)
    [] p = 2 -> Full(None, <<It(N("func", "FOO", <<Listed(<<Opd(x), Cn(u)>>)>>)), It(Dot(v, u))>>, Fr(TsrcAs("t", v)),
                     One(N("and", "", <<N("cmp", "=", <<Opd(x), Opd2(y)>>), N("or", "", <<z, Cn(u)>>)>>)),
                     N("group", "BY", <<Listed(<<y, Cn(u)>>)>>), One(z), <<>>, WOrder(<<OItem(Cn(u), q.o), OItem(y, q.o)>>))
    [] p = 3 -> Simple(<<It(N("case", "", <<None, Listed(<<N("when", "", <<x, y>>)>>), One(z)>>)), It(Cn(u))>>,
                       FrJ(Tsrc(v), <<JoinOf(q.j, Tsrc("w"), On1(N("and", "", <<x, z>>)))>>))
    [] p = 4 -> Full(None, <<It(A), It(Cn(u))>>, Fr(Sub(Simple(<<ItAs(x, u), ItAs(y, v)>>, FT), "s")), One(z), None, None, <<>>,
                     WOrder(<<OItem(Cn(v), q.o)>>))
    [] p = 5 -> Simple(<<It(Dot("s", u)), It(Cn(v)), It(x)>>,
                       FrJ(Sub(Simple(<<It(A), ItBare(B, u)>>, FT), "s"),
                           <<JoinOf(q.j, Sub(Simple(<<It(B), ItAs(A, u)>>, FT), v), N("using", "", <<Listed(<<Cn(u)>>)>>))>>))
    [] p = 6 -> N("query", "", <<Listed(<<N("cte", u, <<Simple(<<It(x)>>, Fr(Tsrc(v)))>>)>>),
                                 Full(None, <<It(y)>>, Fr(Tsrc(u)), None, None, None, <<N("set", q.s, <<Simple(<<It(z)>>, Fr(Tsrc(v)))>>)>>, None),
                                 None>>)
    [] p = 7 -> Simple(<<It(N("over", "", <<N("func", "SUM", <<Listed(<<x>>)>>), Listed(<<y, Cn(u)>>), WOrder(<<OItem(Opd(z), q.o)>>), q.f>>)),
                         ItAs(N("over", "", <<N("func", "MAX", <<Listed(<<A>>)>>), HNil("none"), WOrder(<<OItem(Cn(u), q.o)>>), q.f>>), v)>>, FT)
    [] p = 8 -> Full(None, <<It(A)>>, FT, One(N("exists", "", <<Full(None, <<It(x)>>, Fr(TsrcBare(u, "r")), One(N("cmp", "=", <<Dot("t", v), Opd2(y)>>)),
                                                                     None, None, <<>>, None)>>)), None, None, <<>>, None)
    [] p = 9 -> Full(None, <<It(A)>>, FT,
                     One(N("or", "", <<N("in", "IN", <<Opd2(x), Listed(<<y, Cn(u)>>)>>), N("between", "BETWEEN", <<Opd2(x), Opd2(y), Opd2(z)>>)>>)),
                     None, None, <<>>, None)
    [] p = 10 -> Simple(<<It(N("aagg", "", <<N("kw", "DISTINCT", <<>>), x, None, WOrder(<<OItem(Opd(y), q.o)>>), N("num", "5", <<>>)>>)),
                          It(N("array", "", <<Listed(<<x, y>>)>>)), It(N("index", "", <<Cn(u), z>>))>>, FT)
    [] p = 11 -> Full(N("kw", "DISTINCT", <<>>), <<It(x)>>,
                      Fr(N("unnest", "", <<Listed(<<N("array", "", <<Listed(<<y>>)>>)>>), N("as", "", <<C(u)>>), N("woff", "", <<N("as", "", <<C(v)>>)>>)>>)),
                      None, None, None, <<>>, None)
    [] p = 12 -> Simple(<<It(N("except", "", <<N("star", "", <<>>), Listed(<<Cn(u), Cn(v)>>)>>)),
                          It(N("replace", "", <<N("star", "", <<>>), Listed(<<N("ralias", "", <<x, C(u)>>)>>)>>)), It(y)>>, FT)
    \* closed sources: what is missing is known
    [] p = 13 -> Full(None, <<It(x), It(Cn(u)), ItAs(y, v)>>, Fr(Sub(Simple(<<It(A), It(B), It(C("c"))>>, FT), "t")), One(z),
                      N("group", "BY", <<Listed(<<y, Cn(v)>>)>>), None, <<>>, WOrder(<<OItem(Cn(u), q.o), OItem(Cn(v), q.o)>>))
    [] p = 14 -> Full(None, <<It(Dot(u, "a")), It(Dot("s", v)), It(x)>>,
                      FrJ(Sub(Simple(<<It(A), It(B), ItAs(Par(y), v)>>, FT), u),
                          <<JoinOf(q.j, N("sub", "", <<Simple(<<ItAs(B, v)>>, FT), N("as", "", <<C("s")>>)>>), On1(N("cmp", "=", <<Dot("s", v), Dot(u, v)>>)))>>),
                      One(z), None, None, <<>>, None)
Whole(p, q) == LET t == PlaceOf(p, q) IN IF t.o = "query" THEN t ELSE N("query", "", <<None, t, None>>)

FrameWords == {"rows", "range", "ROWS", "RANGE"}
RECURSIVE Mentions(_, _)
Mentions(t, ws) == t.v \in ws \/ \E x \in DOMAIN t.k : Mentions(t.k[x], ws)
(* what words cannot stand where: a sign or brackets after a name would belong to it, a bare name before OVER or a word
   that could begin the next clause *)
Fits(p, q) ==
  /\ ~(p = 7 /\ (q.u \in FrameWords \/ Mentions(q.y, FrameWords) \/ Mentions(q.z, FrameWords)))
  /\ ~(p = 10 /\ Mentions(q.x, {"ignore", "respect"}))
  /\ ~(p \in {5, 12} /\ {q.u, q.v} \cap Pseudo # {})

(* -------------------------------------------------------------------- steps *)
Init == /\ n = 0 /\ place \in Places
        /\ \E k \in DOMAIN Default : \E w \in Vocabulary[k] : slots = [Default EXCEPT ![k] = w]
Next == /\ n < MaxDepth /\ n' = n + 1
        /\ \E k \in DOMAIN Default : slots[k] = Default[k] /\ \E w \in Vocabulary[k] : slots' = [slots EXCEPT ![k] = w]
        /\ UNCHANGED place
Spec == Init /\ [][Next]_vars
InitSome == n = 0 /\ place \in Places /\ slots = Default
NextSome == /\ n < MaxDepth /\ n' = n + 1
            /\ \E i \in 1..Fanout : slots' = [k \in DOMAIN Default |-> TLCEval(IF RandomElement(1..3) = 1 THEN RandomElement(Vocabulary[k]) ELSE slots[k])]
            /\ place' = RandomElement(Places)
SpecSome == InitSome /\ [][NextSome]_vars

TokensKept == LET q == Whole(place, slots) IN Fits(place, slots) => Flat(Lay(q)) = Toks(q)
Report == Fits(place, slots) =>
          LET q == Whole(place, slots) IN PrintT("@" \o ToJson([t |-> EncToks(Toks(q)), l |-> EncText(Lay(q)), e |-> Errors(q), n |-> n]))
=============================================================================
