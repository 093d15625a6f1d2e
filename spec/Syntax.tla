------------------------------- MODULE Syntax -------------------------------
(* What a tree says: its token sequence (Toks) and its formatted layout (Lay).  Toks is the grammar read
   left to right; Lay is the formatter's rules.  They are written independently of each other.          *)
EXTENDS Dialect

LineLength == 88

KwTable ==
  ("IS NULL" :> <<"IS", "NULL">>) @@ ("IS NOT NULL" :> <<"IS", "NOT", "NULL">>) @@ ("IN" :> <<"IN">>) @@
  ("NOT IN" :> <<"NOT", "IN">>) @@ ("LIKE" :> <<"LIKE">>) @@ ("NOT LIKE" :> <<"NOT", "LIKE">>) @@
  ("CONTAINS" :> <<"CONTAINS">>) @@
  ("DISTINCT" :> <<"DISTINCT">>) @@ ("ALL" :> <<"ALL">>) @@ ("ASC" :> <<"ASC">>) @@ ("DESC" :> <<"DESC">>) @@
  ("IGNORE NULLS" :> <<"IGNORE", "NULLS">>) @@ ("RESPECT NULLS" :> <<"RESPECT", "NULLS">>) @@
  ("JOIN" :> <<"JOIN">>) @@ ("LEFT JOIN" :> <<"LEFT", "JOIN">>) @@ ("CROSS JOIN" :> <<"CROSS", "JOIN">>) @@
  ("FULL OUTER JOIN" :> <<"FULL", "OUTER", "JOIN">>) @@ ("INNER JOIN" :> <<"INNER", "JOIN">>) @@
  ("RIGHT JOIN" :> <<"RIGHT", "JOIN">>) @@ ("LEFT OUTER JOIN" :> <<"LEFT", "OUTER", "JOIN">>) @@
  ("RIGHT OUTER JOIN" :> <<"RIGHT", "OUTER", "JOIN">>) @@ ("FULL JOIN" :> <<"FULL", "JOIN">>) @@ ("LEFT JOIN EACH" :> <<"LEFT", "JOIN", "EACH">>) @@ ("INNER JOIN EACH" :> <<"INNER", "JOIN", "EACH">>) @@
  ("LEFT OUTER JOIN EACH" :> <<"LEFT", "OUTER", "JOIN", "EACH">>) @@ ("EXCEPT ALL" :> <<"EXCEPT", "ALL">>) @@ ("INTERSECT ALL" :> <<"INTERSECT", "ALL">>) @@ ("INTERSECT DISTINCT" :> <<"INTERSECT", "DISTINCT">>) @@
  ("JOIN EACH" :> <<"JOIN", "EACH">>) @@
  ("NOT CONTAINS" :> <<"NOT", "CONTAINS">>) @@ ("IS" :> <<"IS">>) @@ ("IS NOT" :> <<"IS", "NOT">>) @@
  ("EXCEPT DISTINCT" :> <<"EXCEPT", "DISTINCT">>) @@ ("UNION DISTINCT" :> <<"UNION", "DISTINCT">>) @@
  ("NULLS FIRST" :> <<"NULLS", "FIRST">>) @@ ("NULLS LAST" :> <<"NULLS", "LAST">>) @@
  ("UNION ALL" :> <<"UNION", "ALL">>) @@ ("UNION" :> <<"UNION">>) @@ ("EXCEPT" :> <<"EXCEPT">>) @@
  ("INTERSECT" :> <<"INTERSECT">>) @@
  ("BY" :> <<"BY">>) @@ ("EACH BY" :> <<"EACH", "BY">>) @@ ("BY ROLLUP" :> <<"BY", "ROLLUP">>) @@
  ("BETWEEN" :> <<"BETWEEN">>) @@ ("NOT BETWEEN" :> <<"NOT", "BETWEEN">>) @@
  ("ROWS BETWEEN UNBOUNDED PRECEDING AND CURRENT ROW" :>
      <<"ROWS", "BETWEEN", "UNBOUNDED", "PRECEDING", "AND", "CURRENT", "ROW">>) @@
  ("ROWS BETWEEN" :> <<"ROWS", "BETWEEN">>) @@ ("RANGE BETWEEN" :> <<"RANGE", "BETWEEN">>) @@ ("RANGE" :> <<"RANGE">>) @@
  ("PRECEDING AND UNBOUNDED FOLLOWING" :> <<"PRECEDING", "AND", "UNBOUNDED", "FOLLOWING">>) @@
  ("PRECEDING" :> <<"PRECEDING">>) @@ ("PRECEDING AND" :> <<"PRECEDING", "AND">>) @@ ("FOLLOWING" :> <<"FOLLOWING">>) @@
  ("FOLLOWING EXCLUDE TIES" :> <<"FOLLOWING", "EXCLUDE", "TIES">>)

(* ------------------------------------------------------------------ tokens *)
TK(ws) == [x \in DOMAIN ws |-> <<"k", ws[x]>>]
TO(s) == << <<"o", s>> >>
TV(s) == << <<"n", s>> >>
RECURSIVE SepT(_, _)
SepT(ts, sep) == IF ts = <<>> THEN <<>> ELSE IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o sep \o SepT(Tail(ts), sep)
ParT(T) == TO("(") \o T \o TO(")")

TypeToks(v) == CASE v = "NUMERIC" -> TK(<<"NUMERIC">>) \o TO("(") \o TV("10") \o TO(",") \o TV("2") \o TO(")")
                 [] v = "DOUBLE PRECISION" -> TK(<<"DOUBLE", "PRECISION">>)
                 [] v = "ARRAY" -> TK(<<"ARRAY">>) \o TO("<") \o TK(<<"INT64">>) \o TO(">")
                 [] v = "FORMAT" -> TK(<<"STRING", "FORMAT">>) \o TV("'Yyyy, mm'")
                 [] v = "STRUCT" -> TK(<<"STRUCT">>) \o TO("<") \o TV("aB") \o TK(<<"INT64">>) \o TO(",") \o TV("c") \o
                                    TK(<<"ARRAY">>) \o TO("<") \o TK(<<"STRING">>) \o TO(">>")
                 [] v = "QUOTED" -> TV("\"My Type\"")

RECURSIVE Toks(_)
ToksAll(ts) == [x \in DOMAIN ts |-> Toks(ts[x])]
ToksList(t) == SepT(ToksAll(Flatten(t)), TO(","))
Toks(t) ==
  LET k(x) == Toks(t.k[x])
      l(x) == ToksList(t.k[x])
  IN CASE t.o \in {"none", "nil"} -> <<>>
       [] t.o \in {"col", "str", "num"} -> TV(t.v)
       [] t.o = "star" -> TO("*")
       [] t.o = "bool" -> TK(<<t.v>>)
       [] t.o = "null" -> TK(<<"NULL">>)
       [] t.o = "kw" -> IF t.v = ";" THEN TO(";") ELSE TK(KwTable[t.v])
       [] t.o = "some" -> k(1)
       [] t.o = "chain" -> SepT(ToksAll(t.k), TO("."))
       [] t.o = "brk" -> TO("[") \o SepT(ToksAll(t.k), TO(".")) \o TO("]")
       [] t.o = "func" -> TK(<<t.v>>) \o ParT(l(1))
       [] t.o = "count" -> TK(<<"COUNT">>) \o ParT(k(1))
       [] t.o = "countd" -> TK(<<"COUNT">>) \o ParT(TK(<<"DISTINCT">>) \o l(1))
       [] t.o = "kwname" -> TK(<<t.v>>)
       [] t.o = "funcd" -> TK(<<t.v>>) \o ParT(TK(<<"DISTINCT">>) \o l(1))
       [] t.o = "arrsub" -> TK(<<t.v>>) \o ParT(k(1))
       [] t.o = "typed" -> TK(<<t.v>>) \o k(1)
       [] t.o = "interval" -> TK(<<"INTERVAL">>) \o k(1) \o (IF t.v = "" THEN <<>> ELSE TK(<<t.v>>))
       [] t.o = "castx" -> TK(<<"CAST">>) \o ParT(k(1) \o TK(<<"AS">>) \o TypeToks(t.v))
       [] t.o = "cast" -> TK(<<"CAST">>) \o ParT(k(1) \o TK(<<"AS", t.v>>))
       [] t.o = "aagg" -> TK(<<"ARRAY_AGG">>) \o
            ParT(k(1) \o k(2) \o k(3) \o k(4) \o (IF t.k[5].o = "none" THEN <<>> ELSE TK(<<"LIMIT">>) \o k(5)))
       [] t.o = "worder" -> TK(<<"ORDER", "BY">>) \o l(1)
       [] t.o = "oitem" -> k(1) \o k(2) \o k(3)
       [] t.o = "paren" -> ParT(k(1))
       [] t.o = "tuple" -> ParT(l(1))
       [] t.o = "psub" -> ParT(k(1))
       [] t.o = "case" -> TK(<<"CASE">>) \o k(1) \o SepT(ToksAll(Flatten(t.k[2])), <<>>)
                          \o (IF t.k[3].o = "none" THEN <<>> ELSE TK(<<"ELSE">>) \o k(3)) \o TK(<<"END">>)
       [] t.o = "when" -> TK(<<"WHEN">>) \o k(1) \o TK(<<"THEN">>) \o k(2)
       [] t.o = "over" -> k(1) \o TK(<<"OVER">>) \o
            ParT((IF t.k[2].o = "nil" THEN <<>> ELSE TK(<<"PARTITION", "BY">>) \o l(2)) \o k(3) \o k(4))
       [] t.o = "frame" -> SepT(ToksAll(t.k), <<>>)
       [] t.o = "index" -> k(1) \o TO("[") \o k(2) \o TO("]")
       [] t.o = "array" -> TO("[") \o l(1) \o TO("]")
       [] t.o = "filter" -> k(1) \o TK(<<"FILTER">>) \o ParT(TK(<<"WHERE">>) \o k(2))
       [] t.o = "extract" -> TK(<<"EXTRACT">>) \o ParT(TK(<<t.v, "FROM">>) \o k(1))
       [] t.o = "neg" -> TO(t.v) \o k(1)
       [] t.o = "ar" -> k(1) \o TO(t.v) \o k(2)
       [] t.o = "cmp" -> k(1) \o TO(t.v) \o k(2)
       [] t.o = "like" -> k(1) \o TK(KwTable[t.v]) \o k(2)
       [] t.o = "isnull" -> k(1) \o TK(KwTable[t.v])
       [] t.o = "in" -> k(1) \o TK(KwTable[t.v]) \o ParT(l(2))
       [] t.o = "insub" -> k(1) \o TK(KwTable[t.v]) \o ParT(k(2))
       [] t.o = "between" -> k(1) \o TK(KwTable[t.v]) \o k(2) \o TK(<<"AND">>) \o k(3)
       [] t.o = "not" -> TK(<<"NOT">>) \o k(1)
       [] t.o = "exists" -> TK(<<"EXISTS">>) \o ParT(k(1))
       [] t.o = "and" -> k(1) \o TK(<<"AND">>) \o k(2)
       [] t.o = "or" -> k(1) \o TK(<<"OR">>) \o k(2)
       [] t.o = "as" -> TK(<<"AS">>) \o k(1)
       [] t.o = "bare" -> k(1)
       [] t.o = "item" -> k(1) \o k(2)
       [] t.o = "ralias" -> k(1) \o TK(<<"AS">>) \o k(2)
       [] t.o = "except" -> k(1) \o TK(<<"EXCEPT">>) \o ParT(l(2))
       [] t.o = "replace" -> k(1) \o TK(<<"REPLACE">>) \o ParT(l(2))
       [] t.o = "tsrc" -> k(1) \o k(2)
       [] t.o = "sub" -> ParT(k(1)) \o k(2)
       [] t.o = "psrc" -> ParT(k(1) \o SepT(ToksAll(Flatten(t.k[2])), <<>>))
       [] t.o = "unnest" -> TK(<<"UNNEST">>) \o ParT(l(1)) \o k(2) \o k(3)
       [] t.o = "woff" -> TK(<<"WITH", "OFFSET">>) \o k(1)
       [] t.o = "join" -> (IF t.v = "," THEN TO(",") ELSE TK(KwTable[t.v])) \o k(1) \o k(2)
       [] t.o = "on" -> TK(<<"ON">>) \o k(1)
       [] t.o = "using" -> TK(<<"USING">>) \o ParT(l(1))
       [] t.o = "from" -> k(1) \o SepT(ToksAll(Flatten(t.k[2])), <<>>)
       [] t.o = "diston" -> TK(<<"DISTINCT", "ON">>) \o ParT(l(1))
       [] t.o = "group" -> TK(<<"GROUP">>) \o TK(KwTable[t.v]) \o l(1)
       [] t.o = "select" ->
            LET cl(x, kw) == IF t.k[x].o = "none" THEN <<>> ELSE TK(kw) \o k(x)
            IN TK(<<"SELECT">>) \o k(1) \o l(2) \o cl(3, <<"FROM">>) \o cl(4, <<"WHERE">>) \o k(5)
               \o cl(6, <<"HAVING">>) \o SepT(ToksAll(Flatten(t.k[7])), <<>>) \o k(8) \o cl(9, <<"LIMIT">>)
               \o cl(10, <<"OFFSET">>)
       [] t.o = "cte" -> TV(t.v) \o TK(<<"AS">>) \o ParT(k(1))
       [] t.o = "set" -> TK(KwTable[t.v]) \o k(1)
       [] t.o = "query" -> (IF t.k[1].o = "none" THEN <<>> ELSE TK(<<"WITH">>) \o l(1)) \o k(2) \o k(3)

(* ------------------------------------------------------------------ layout *)
KS(ws) == S([x \in DOMAIN ws |-> K(ws[x])])
KV(v) == KS(KwTable[v])
Enclose(A) == L(<<O("("), IndAll(A, 1), O(")")>>)               \* bracketed block
Inline(A) == G(<<O("("), A, O(")")>>)                           \* brackets around the text as it is
IsBool(t) == t.o \in {"and", "or"}
BoolKw(t) == IF t.o = "and" THEN "AND" ELSE "OR"

LayType(v) == CASE v = "NUMERIC" -> G(<<K("NUMERIC"), O("("), CommaSp(<<V("10"), V("2")>>), O(")")>>)
                [] v = "DOUBLE PRECISION" -> KS(<<"DOUBLE", "PRECISION">>)
                [] v = "ARRAY" -> G(<<K("ARRAY"), O("<"), K("INT64"), O(">")>>)
                [] v = "FORMAT" -> S(<<KS(<<"STRING", "FORMAT">>), V("'Yyyy, mm'")>>)
                [] v = "STRUCT" -> G(<<K("STRUCT"), O("<"), CommaSp(<<S(<<V("aB"), K("INT64")>>),
                                        S(<<V("c"), G(<<K("ARRAY"), O("<"), K("STRING"), O(">>")>>)>>)>>)>>)
                [] v = "QUOTED" -> V("\"My Type\"")

(* NOT is put next to the bracket that begins its condition *)
RECURSIVE HeadIsParen(_)
HeadIsParen(t) == \/ t.o \in {"paren", "psub", "tuple"}
                  \/ t.o \in {"cmp", "like", "isnull", "in", "insub", "between"} /\ HeadIsParen(t.k[1])

RECURSIVE Lay(_), LayBool(_, _), LayFrom(_, _)
LayAll(ts) == [x \in DOMAIN ts |-> Lay(ts[x])]
LayList(t) == LayAll(Flatten(t))

TwoSided(l, kw, r, wrap, parts) ==
  LET one == S(<<l, K(kw), r>>)
  IN IF Size(one) < LineLength /\ ~wrap THEN one
     ELSE L(<<parts[1], S(<<K(kw), parts[2]>>)>>)

(* an operand of a broken AND/OR *)
BrokenOperand(t) ==
  CASE IsBool(t) -> LayBool(t, TRUE)
    [] t.o = "paren" -> LET A == Lay(t.k[1]) IN IF Multi(A) THEN Enclose(A) ELSE Inline(A)
    [] t.o = "tuple" -> LET A == CommaSp(LayList(t.k[1])) IN IF Multi(A) THEN Enclose(A) ELSE Inline(A)
    [] t.o = "psub" -> LET A == Lay(t.k[1]) IN IF Multi(A) THEN Enclose(A) ELSE Inline(A)
    [] OTHER -> Lay(t)
LayBool(t, wrap) ==
  TwoSided(Lay(t.k[1]), BoolKw(t), Lay(t.k[2]), wrap, <<BrokenOperand(t.k[1]), BrokenOperand(t.k[2])>>)

LayArgs(name, args) ==
  IF args = <<>> THEN G(<<K(name), O("("), O(")")>>)
  ELSE IF AnyMulti(args) \/ Size(CommaSp(args)) > LineLength
       THEN L(<<G(<<K(name), O("(")>>), CommaNl(MapIndAll(args, 1)), O(")")>>)
       ELSE G(<<K(name), Inline(CommaSp(args))>>)

(* WHERE, HAVING, ON: a condition that spans lines goes to its own block *)
LayBlock(kw, t) ==
  LET A == Lay(t)
  IN IF t.o \in {"paren", "psub"} /\ Multi(A)
     THEN L(<<S(<<K(kw), O("(")>>), IndAll(Lay(t.k[1]), 1), O(")")>>)
     ELSE IF t.o = "tuple" /\ Multi(A)
     THEN L(<<S(<<K(kw), O("(")>>), IndAll(CommaSp(LayList(t.k[1])), 1), O(")")>>)
     ELSE IF Multi(A) THEN L(<<K(kw), IndAll(A, 1)>>) ELSE S(<<K(kw), A>>)

LayWhen(t) ==
  LET A == Lay(t.k[1])
      th == S(<<K("THEN"), Lay(t.k[2])>>)
  IN IF t.k[1].o \in {"paren", "psub", "tuple"} /\ Multi(A)
     THEN IndAll(S(<<K("WHEN"), O("(")>>), 1) \o
          IndAll(IF t.k[1].o = "tuple" THEN CommaSp(LayList(t.k[1].k[1])) ELSE Lay(t.k[1].k[1]), 2) \o IndAll(O(")"), 1)
          \o << [th[1] EXCEPT !.i = 1] >> \o Tail(th)
     ELSE IF Multi(A) THEN IndAll(K("WHEN"), 1) \o IndAll(A, 2) \o << [th[1] EXCEPT !.i = 1] >> \o Tail(th)
     ELSE LET w == S(<<K("WHEN"), A, th>>) IN << [w[1] EXCEPT !.i = 1] >> \o Tail(w)

RECURSIVE CatAll(_)
CatAll(ts) == IF ts = <<>> THEN <<>> ELSE Head(ts) \o CatAll(Tail(ts))

LayCase(t) ==
  (IF t.k[1].o = "none" THEN K("CASE") ELSE S(<<K("CASE"), Lay(t.k[1])>>))
  \o CatAll([x \in DOMAIN Flatten(t.k[2]) |-> LayWhen(Flatten(t.k[2])[x])])
  \o (IF t.k[3].o = "none" THEN <<>>
      ELSE LET e == S(<<K("ELSE"), Lay(t.k[3])>>) IN << [e[1] EXCEPT !.i = 1] >> \o Tail(e))
  \o K("END")

LayOver(t) ==
  LET head == S(<<Lay(t.k[1]), K("OVER"), O("(")>>)
      ps == LayList(t.k[2])
      os == IF t.k[3].o = "none" THEN <<>> ELSE LayList(t.k[3].k[1])
      part == IF ps = <<>> THEN <<>>
              ELSE IF Len(ps) = 1 THEN LET a == S(<<KS(<<"PARTITION", "BY">>), ps[1]>>)
                                       IN << [a[1] EXCEPT !.i = 1] >> \o Tail(a)
              ELSE IndAll(KS(<<"PARTITION", "BY">>), 1)
                   \o CatAll([x \in DOMAIN ps |-> LET p == CommaAll(ps)[x] IN << [p[1] EXCEPT !.i = 2] >> \o Tail(p)])
      ord == IF os = <<>> THEN <<>>
             ELSE IF Len(os) = 1 THEN IndAll(S(<<KS(<<"ORDER", "BY">>), os[1]>>), 1)
             ELSE IndAll(KS(<<"ORDER", "BY">>), 1) \o IndAll(CommaNl(os), 2)
      fr == IF t.k[4].o = "none" THEN <<>> ELSE IndAll(Lay(t.k[4]), IF part = <<>> /\ ord = <<>> /\ ~Multi(head) THEN 0 ELSE 1)
  IN IF part = <<>> /\ ord = <<>> /\ ~Multi(head)
     THEN IF fr = <<>> THEN G(<<head, O(")")>>) ELSE G(<<head, fr, O(")")>>)
     ELSE head \o part \o ord \o fr \o O(")")

LayAagg(t) ==
  LET os == IF t.k[4].o = "none" THEN <<>> ELSE LayList(t.k[4].k[1])
      parts == << >> \o (IF t.k[1].o = "none" THEN <<>> ELSE <<K("DISTINCT")>>) \o <<Lay(t.k[2])>>
               \o (IF t.k[3].o = "none" THEN <<>> ELSE <<KV(t.k[3].v)>>)
               \o (IF os = <<>> THEN <<>> ELSE <<KS(<<"ORDER", "BY">>), CommaSp(os)>>)
               \o (IF t.k[5].o = "none" THEN <<>> ELSE <<K("LIMIT"), Lay(t.k[5])>>)
  IN G(<<K("ARRAY_AGG"), O("("), S(parts), O(")")>>)

LayStarList(t, kw) ==
  LET as == LayList(t.k[2])
      head == S(<<Lay(t.k[1]), K(kw), O("(")>>)
  IN IF Len(as) = 1 THEN G(<<head, as[1], O(")")>>)
     ELSE L(<<head, CommaNl([x \in DOMAIN as |-> << [as[x][1] EXCEPT !.i = 1] >> \o Tail(as[x])]), O(")")>>)

WithAlias(A, al) ==
  CASE al.o = "none" -> A
    [] al.o = "as" -> S(<<A, K("AS"), Lay(al.k[1])>>)
    [] al.o = "bare" -> S(<<A, Lay(al.k[1])>>)

(* a source and the joins that follow it *)
LaySrc(t) ==
  CASE t.o = "tsrc" -> WithAlias(Lay(t.k[1]), t.k[2])
    [] t.o = "sub" -> WithAlias(Enclose(Lay(t.k[1])), t.k[2])
    [] t.o = "psrc" -> Enclose(LayFrom(t.k[1], Flatten(t.k[2])))
    [] t.o = "unnest" -> LET A == WithAlias(LayArgs("UNNEST", LayList(t.k[1])), t.k[2])
                         IN IF t.k[3].o = "none" THEN A
                            ELSE WithAlias(S(<<A, KS(<<"WITH", "OFFSET">>)>>), t.k[3].k[1])
(* beside a join, directly nested brackets share their lines *)
LayJoined(t) ==
  IF t.o = "psrc" /\ t.k[2].o = "nil" /\ t.k[1].o = "sub" /\ t.k[1].k[2].o = "none"
  THEN L(<<G(<<O("("), O("(")>>), IndAll(Lay(t.k[1].k[1]), 1), G(<<O(")"), O(")")>>)>>)
  ELSE LaySrc(t)
LayJoinCond(c) ==
  CASE c.o = "none" -> <<>>
    [] c.o = "on" -> LayBlock("ON", c.k[1])
    [] c.o = "using" -> S(<<K("USING"), Inline(CommaSp(LayList(c.k[1])))>>)
LayFrom(src, joins) ==
  IF joins = <<>> THEN LaySrc(src)
  ELSE LET j == Lst(joins)
           left == IF Len(joins) = 1 THEN LayJoined(src) ELSE LayFrom(src, Front(joins))
           right == LayJoined(j.k[1])
       IN (IF j.v = "," THEN S(<<Comma(left), right>>) ELSE L(<<left, S(<<KV(j.v), right>>)>>)) \o LayJoinCond(j.k[2])

LaySelect(t) ==
  LET mod == CASE t.k[1].o = "none" -> K("SELECT")
               [] t.k[1].o = "kw" -> S(<<K("SELECT"), KV(t.k[1].v)>>)
               [] t.k[1].o = "diston" -> S(<<KS(<<"SELECT", "DISTINCT", "ON">>), Inline(CommaSp(LayList(t.k[1].k[1])))>>)
      items == LayList(t.k[2])
      sel == IF Len(items) = 1 THEN S(<<mod, items[1]>>) ELSE mod \o CommaNl(MapIndAll(items, 1))
      from == IF t.k[3].o = "none" THEN <<>> ELSE S(<<K("FROM"), LayFrom(t.k[3].k[1], Flatten(t.k[3].k[2]))>>)
      where == IF t.k[4].o = "none" THEN <<>> ELSE LayBlock("WHERE", t.k[4].k[1])
      gl == LayList(t.k[5].k[1])
      group == IF t.k[5].o = "none" THEN <<>>
               ELSE IF Len(gl) = 1 THEN S(<<K("GROUP"), KV(t.k[5].v), gl[1]>>)
               ELSE L(<<S(<<K("GROUP"), KV(t.k[5].v)>>), CommaNl(MapIndAll(gl, 1))>>)
      having == IF t.k[6].o = "none" THEN <<>> ELSE LayBlock("HAVING", t.k[6].k[1])
      sets == CatAll(LayList(t.k[7]))
      ol == LayList(t.k[8].k[1])
      order == IF t.k[8].o = "none" THEN <<>>
               ELSE IF Len(ol) = 1 THEN S(<<KS(<<"ORDER", "BY">>), ol[1]>>)
               ELSE L(<<KS(<<"ORDER", "BY">>), CommaNl(MapIndAll(ol, 1))>>)
      limit == IF t.k[9].o = "none" THEN <<>> ELSE S(<<K("LIMIT"), Lay(t.k[9])>>)
      offset == IF t.k[10].o = "none" THEN <<>> ELSE S(<<K("OFFSET"), Lay(t.k[10])>>)
  IN sel \o from \o where \o group \o having \o sets \o order \o limit \o offset

Lay(t) ==
  LET k(x) == Lay(t.k[x])
      l(x) == LayList(t.k[x])
  IN CASE t.o \in {"col", "str", "num"} -> V(t.v)
       [] t.o = "star" -> O("*")
       [] t.o = "bool" -> K(t.v)
       [] t.o = "null" -> K("NULL")
       [] t.o = "kw" -> KV(t.v)
       [] t.o = "some" -> k(1)
       [] t.o = "chain" -> LET F[x \in DOMAIN t.k] == IF x = 1 THEN k(1) ELSE G(<<F[x-1], O("."), k(x)>>) IN F[Len(t.k)]
       [] t.o = "brk" -> G(<<O("["), k(1), O("."), k(2), O("]")>>)
       [] t.o = "func" -> LayArgs(t.v, l(1))
       [] t.o = "count" -> G(<<K("COUNT"), Inline(k(1))>>)
       [] t.o = "countd" -> G(<<K("COUNT"), O("("), S(<<K("DISTINCT"), CommaSp(l(1))>>), O(")")>>)
       [] t.o = "kwname" -> K(t.v)
       [] t.o = "funcd" -> LET as == l(1) IN LayArgs(t.v, <<S(<<K("DISTINCT"), as[1]>>)>> \o Tail(as))
       [] t.o = "arrsub" -> LayArgs(t.v, <<k(1)>>)
       [] t.o = "typed" -> S(<<K(t.v), k(1)>>)
       [] t.o = "interval" -> S(<<K("INTERVAL"), k(1)>> \o (IF t.v = "" THEN <<>> ELSE <<K(t.v)>>))
       [] t.o = "castx" -> G(<<K("CAST"), O("("), S(<<k(1), K("AS"), LayType(t.v)>>), O(")")>>)
       [] t.o = "cast" -> G(<<K("CAST"), O("("), S(<<k(1), K("AS"), K(t.v)>>), O(")")>>)
       [] t.o = "aagg" -> LayAagg(t)
       [] t.o = "oitem" -> S(<<k(1)>> \o (IF t.k[2].o = "none" THEN <<>> ELSE <<k(2)>>)
                                    \o (IF t.k[3].o = "none" THEN <<>> ELSE <<k(3)>>))
       [] t.o = "paren" -> Inline(k(1))
       [] t.o = "tuple" -> Inline(CommaSp(l(1)))
       [] t.o = "psub" -> Enclose(k(1))
       [] t.o = "case" -> LayCase(t)
       [] t.o = "over" -> LayOver(t)
       [] t.o = "frame" -> S(LayAll(t.k))
       [] t.o = "index" -> G(<<k(1), O("["), k(2), O("]")>>)
       [] t.o = "array" -> G(<<O("["), CommaSp(l(1)), O("]")>>)
       [] t.o = "filter" -> G(<<S(<<k(1), K("FILTER"), O("(")>>), S(<<K("WHERE"), k(2)>>), O(")")>>)
       [] t.o = "extract" -> LayArgs("EXTRACT", <<S(<<K(t.v), K("FROM"), k(1)>>)>>)
       [] t.o = "neg" -> G(<<O(t.v), k(1)>>)
       [] t.o = "ar" -> S(<<k(1), O(t.v), k(2)>>)
       [] t.o = "cmp" -> S(<<k(1), O(t.v), k(2)>>)
       [] t.o = "like" -> S(<<k(1), KV(t.v), k(2)>>)
       [] t.o = "isnull" -> S(<<k(1), KV(t.v)>>)
       [] t.o = "in" -> S(<<k(1), KV(t.v), Inline(CommaSp(l(2)))>>)
       [] t.o = "insub" -> S(<<k(1), KV(t.v), Enclose(k(2))>>)
       [] t.o = "between" -> S(<<k(1), KV(t.v), TwoSided(k(2), "AND", k(3), FALSE, <<BrokenOperand(t.k[2]), BrokenOperand(t.k[3])>>)>>)
       [] t.o = "not" -> IF HeadIsParen(t.k[1]) THEN G(<<K("NOT"), k(1)>>) ELSE S(<<K("NOT"), k(1)>>)
       [] t.o = "exists" -> LayArgs("EXISTS", <<k(1)>>)
       [] IsBool(t) -> LayBool(t, FALSE)
       [] t.o = "item" -> WithAlias(k(1), t.k[2])
       [] t.o = "ralias" -> S(<<k(1), K("AS"), k(2)>>)
       [] t.o = "except" -> LayStarList(t, "EXCEPT")
       [] t.o = "replace" -> LayStarList(t, "REPLACE")
       [] t.o = "select" -> LaySelect(t)
       [] t.o = "set" -> L(<<KV(t.v), k(1)>>)
       [] t.o = "cte" -> L(<<S(<<V(t.v), K("AS"), O("(")>>), IndAll(k(1), 1), O(")")>>)
       [] t.o = "query" ->
            LET w == IF t.k[1].o = "none" THEN <<>> ELSE S(<<K("WITH"), CommaNl(LayList(t.k[1]))>>)
                b == w \o k(2)
            IN IF t.k[3].o = "none" THEN b ELSE G(<<b, O(";")>>)
=============================================================================
