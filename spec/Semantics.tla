------------------------------ MODULE Semantics ------------------------------
(* What validation says about a tree: the list of its errors, in no particular order (a bag).

   A field is [q, n, t, d]: its qualifier ("" if it can be used without one only), its name ("*" = any), its type
   ("int", "float", "str" or "obj" for boolean and unknown), and how many queries lie between its source and
   the place of use.                                                                                      *)
EXTENDS Syntax

Field(q, n, ty, d) == [q |-> q, n |-> n, t |-> ty, d |-> d]
Open == { Field("", "*", "obj", 0) }

(* ------------------------------------------------------------------ names *)
Quoted(v) == SubSeq(v, 1, 1) \in {"`", "\"", "'"}
Bare(v) == IF Quoted(v) THEN SubSeq(v, 2, Len(v) - 1) ELSE v
Lower ==
  ("_TABLE_SUFFIX" :> "_table_suffix") @@ ("_PARTITIONDATE" :> "_partitiondate") @@ ("NFC" :> "nfc") @@ ("NFD" :> "nfd") @@
  ("NFKC" :> "nfkc") @@ ("NFKD" :> "nfkd") @@ ("MONDAY" :> "monday") @@ ("TUESDAY" :> "tuesday") @@ ("WEDNESDAY" :> "wednesday") @@
  ("THURSDAY" :> "thursday") @@ ("FRIDAY" :> "friday") @@ ("SATURDAY" :> "saturday") @@ ("SUNDAY" :> "sunday")
(* functions without brackets *)
Niladic == {"current_date", "current_time", "current_timestamp", "current_datetime", "localtime", "localtimestamp",
  "current_user", "session_user", "Current_Date"}
Placeholders == {"{col}", "%s", ":id", "@var", "$1", "{table}", "$w", "{x}"}
DateWords == {"microsecond", "second", "minute", "hour", "day", "week", "month", "quarter", "year", "second_microsecond",
  "minute_microsecond", "minute_second", "hour_microsecond", "hour_second", "hour_minute", "day_microsecond", "day_second",
  "day_minute", "day_hour", "year_month", "dayofmonth", "dayofweek", "dayofyear", "date", "time", "datetime", "nanosecond",
  "microseconds", "millisecond", "milliseconds", "isoweek", "isoyear", "isodow", "dow", "doy", "decade", "century",
  "millennium", "epoch", "timezone", "timezone_hour", "timezone_minute",
  "Day", "Date", "Week", "MONTH", "Month", "Quarter", "HOUR"}
(* words that stand for themselves wherever they are used as a name *)
SelfNames == {"_TABLE_SUFFIX", "NFC"}

RECURSIVE LineText(_, _)
LineText(w, first) == IF w = <<>> THEN ""
                      ELSE (IF first \/ Head(w)[1] = 1 THEN "" ELSE " ") \o Head(w)[3] \o LineText(Tail(w), FALSE)
Text(t) == LineText(Lay(t)[1].w, TRUE)
RECURSIVE Dotted(_)
Dotted(ts) == IF Len(ts) = 1 THEN ts[1] ELSE ts[1] \o "." \o Dotted(Tail(ts))

(* the name a column, a quoted name or an alias goes by *)
NameOf(t) == IF t.o \in {"col", "str"} THEN Bare(t.v) ELSE Text(t)
IsName(t) == t.o = "col" /\ ~Quoted(t.v)                      \* an unquoted column
IsQName(t) == t.o \in {"col", "str"} /\ Quoted(t.v)            \* quoted: a name or a string
IsPlaceholder(t) == t.o = "col" /\ t.v \in Placeholders
Inner(t) == IF t.o = "item" /\ t.k[2].o = "none" THEN t.k[1] ELSE t
(* an item without the brackets the layout does not care about *)
ItemExpr(t) == IF t.o = "item" THEN t.k[1] ELSE t
ItemAlias(t) == IF t.o = "item" THEN t.k[2] ELSE N("none", "", <<>>)

(* ------------------------------------------------------------- resolution *)
MinDepth(fs) == CHOOSE d \in { f.d : f \in fs } : \A f \in fs : d <= f.d
Nearest(name, env) ==
  LET all == { f \in env : f.n \in {name, "*"} }
      near == IF all = {} THEN {} ELSE LET d == MinDepth(all) IN { f \in all : f.d = d }
      f1 == IF \E f \in near : f.q = "" /\ f.n = "*" THEN { f \in near : f.q = "" /\ f.n = "*" } ELSE near
      f2 == IF \E f \in f1 : f.q = "" /\ f.n = name THEN { f \in f1 : f.q = "" /\ f.n = name } ELSE f1
      plain == { f \in f2 : ~(f.q # "" /\ f.n = "*") }
  IN IF plain # {} THEN plain ELSE IF f2 = {} THEN {} ELSE { CHOOSE f \in f2 : TRUE }
(* fields of one name but several types count as one of unknown type *)
Targets(name, env) == { <<f.q, f.n>> : f \in Nearest(name, env) }
TypeIn(name, env) == LET fs == Nearest(name, env)
                     IN IF Cardinality(fs) = 1 THEN (CHOOSE f \in fs : TRUE).t ELSE "obj"
IsOpen(env) == \E f \in env : f.q = "" /\ f.n = "*"

RECURSIVE HasDot(_)
HasDot(v) == Len(v) > 0 /\ (SubSeq(v, 1, 1) = "." \/ HasDot(SubSeq(v, 2, Len(v))))
IsInt(v) == v \in {"0", "1", "2", "3", "4", "5", "10", "-1", "-2", "-3", "007"}
IsFloat(v) == v \in {"2.5", "-0.5", "1.50", "1e-5", "2E10", ".5", "-2.5"}

(* ------------------------------------------------------------------ types *)
(* of an expression by itself, and of an expression among the fields of its sources *)
RECURSIVE TypeAlone(_)
TypeAlone(t) ==
  CASE t.o = "num" -> IF IsFloat(t.v) THEN "float" ELSE "int"
    [] t.o \in {"str", "col"} -> IF SubSeq(t.v, 1, 1) = "'" \/ (Len(t.v) > 1 /\ SubSeq(t.v, 1, 2) \in {"r'", "R'"}) THEN "str" ELSE "obj"
    [] t.o = "paren" -> TypeAlone(t.k[1])
    [] t.o = "neg" -> TypeAlone(t.k[1])
    [] t.o = "ar" -> IF t.v \in {"+", "-", "*", "/", "%"}
                     THEN IF TypeAlone(t.k[1]) = "float" \/ TypeAlone(t.k[2]) = "float" THEN "float" ELSE "int"
                     ELSE "obj"
    [] OTHER -> "obj"
RECURSIVE TypeOf(_, _)
TypeOf(t, env) ==
  CASE IsName(t) -> TypeIn(t.v, env)
    [] t.o = "kwname" /\ t.v \in DOMAIN Lower -> TypeIn(Lower[t.v], env)
    [] t.o = "paren" -> TypeOf(t.k[1], env)
    [] t.o = "chain" ->
         IF Len(t.k) = 2 /\ \A x \in 1..2 : t.k[x].o \in {"col", "str"}
         THEN LET fs == { f \in env : f.q = NameOf(t.k[1]) /\ f.n = NameOf(t.k[2]) }
                  near == IF fs = {} THEN {} ELSE { f \in fs : f.d = MinDepth(fs) }
                  ts == { f.t : f \in near }
              IN IF Cardinality(ts) = 1 THEN CHOOSE x \in ts : TRUE ELSE "obj"
         ELSE "obj"
    [] OTHER -> TypeAlone(t)
TypeName(ty) == ty

(* ---------------------------------------------------- columns of a source *)
Requalified(q, fs) == { Field(q, f.n, f.t, f.d) : f \in fs }
AliasName(al) == NameOf(al.k[1])
StarOver(star, fs) ==      \* the fields a star ranges over, without qualifiers
  LET here == { f \in fs : f.d = 0 }
      some == IF star.o = "chain" /\ ~IsOpen(here) THEN { f \in here : f.q = NameOf(star.k[1]) } ELSE here
      bare == { Field("", f.n, f.t, 0) : f \in some }
  IN IF \E f \in bare : f.n = "*" THEN Open ELSE bare
IsStar(t) == t.o \in {"star", "except", "replace"} \/ (t.o = "chain" /\ Lst(t.k).o = "star")

RECURSIVE Fields(_), SourceFields(_), JoinFields(_, _), ItemFields(_, _)
FromFields(from) == IF from.o = "none" THEN {} ELSE JoinFields(from.k[1], Flatten(from.k[2]))
IsCommon(c, left, right) == /\ \E f \in left : f.n \in {NameOf(c), "*"}
                            /\ \E f \in right : f.n \in {NameOf(c), "*"}
JoinFields(src, joins) ==
  IF joins = <<>> THEN SourceFields(src)
  ELSE LET j == Lst(joins)
           left == JoinFields(src, Front(joins))
           right == SourceFields(j.k[1])
           cols == IF j.k[2].o = "using" THEN Flatten(j.k[2].k[1]) ELSE <<>>
       IN left \cup right \cup
          { Field("", NameOf(cols[x]), "obj", 0) : x \in { y \in DOMAIN cols : IsCommon(cols[y], left, right) } }
SourceFields(t) ==
  CASE t.o = "tsrc" ->
         IF t.k[2].o = "none" THEN Open
         ELSE IF t.k[1].o = "brk" \/ (t.k[1].o \in {"col", "str"} /\ Quoted(t.k[1].v))
              THEN Requalified(AliasName(t.k[2]), Open)
              ELSE Open        \* the columns of an aliased table may be used with any qualifier
    [] t.o = "unnest" -> Open
    [] t.o = "psrc" -> JoinFields(t.k[1], Flatten(t.k[2]))
    [] t.o = "sub" -> LET fs == Fields(t.k[1])
                      IN IF t.k[2].o = "none" THEN fs ELSE Requalified(AliasName(t.k[2]), fs)
ItemFields(item, fs) ==
  LET e == ItemExpr(item)
      al == ItemAlias(item)
  IN IF al.o # "none" THEN { Field("", AliasName(al), TypeOf(e, fs), 0) }
     ELSE CASE e.o = "star" -> StarOver(e, fs)
            [] e.o = "chain" /\ IsStar(e) -> StarOver(e, fs)
            [] e.o = "except" ->
                 LET out == { NameOf(Flatten(e.k[2])[x]) : x \in DOMAIN Flatten(e.k[2]) }
                 IN { f \in StarOver(e.k[1], fs) : f.n \notin out }
            [] e.o = "replace" ->
                 LET as == Flatten(e.k[2])
                     new == { Field("", NameOf(as[x].k[2]), TypeOf(as[x].k[1], fs), 0) : x \in DOMAIN as }
                 IN { IF \E g \in new : g.n = f.n THEN CHOOSE g \in new : g.n = f.n ELSE f : f \in StarOver(e.k[1], fs) }
            [] e.o = "chain" -> { Field("", NameOf(Lst(e.k)), TypeOf(e, fs), 0) }
            [] IsPlaceholder(e) -> { Field("", e.v, TypeOf(e, fs), 0) } \cup Open
            [] IsName(e) -> { Field("", e.v, TypeOf(e, fs), 0) }
            [] e.o = "kwname" /\ e.v \in DOMAIN Lower -> { Field("", Lower[e.v], TypeOf(e, fs), 0) }
            [] IsQName(e) /\ SubSeq(e.v, 1, 1) # "'" -> { Field("", NameOf(e), "obj", 0) }
            [] OTHER -> {}
Fields(sel) ==
  LET fs == FromFields(sel.k[3])
      items == Flatten(sel.k[2])
  IN UNION { ItemFields(items[x], fs) : x \in DOMAIN items }
AliasedFields(sel) ==
  LET fs == FromFields(sel.k[3])
      items == Flatten(sel.k[2])
  IN UNION { IF ItemAlias(items[x]).o = "none" THEN {}
             ELSE { Field("", AliasName(ItemAlias(items[x])), TypeOf(ItemExpr(items[x]), fs), 0) } : x \in DOMAIN items }

(* ----------------------------------------------------------------- errors *)
NotFound(name) == << "The column " \o name \o " was not found" >>
Ambiguous(name) == << "column \"" \o name \o "\" is ambiguous" >>
NotBool(what, ty) == << "The argument of " \o what \o " must be type boolean, not type " \o ty >>
BoolArg(what, t, env) == IF TypeOf(t, env) = "obj" THEN <<>> ELSE NotBool(what, TypeOf(t, env))

RECURSIVE Concat(_)
Concat(ss) == IF ss = <<>> THEN <<>> ELSE Head(ss) \o Concat(Tail(ss))

ColumnErr(t, env) ==
  IF IsPlaceholder(t) \/ t.v \in Niladic \/ IsOpen(env) THEN <<>>
  ELSE LET c == Cardinality(Targets(t.v, env))
       IN IF c = 0 THEN NotFound(t.v) ELSE IF c > 1 THEN Ambiguous(t.v) ELSE <<>>

RECURSIVE Errs(_, _), SelErrs(_, _), FromErrs(_, _, _), SourceErrs(_, _)
ErrsAll(ts, env) == Concat([x \in DOMAIN ts |-> Errs(ts[x], env)])
ErrsList(t, env) == ErrsAll(Flatten(t), env)
(* the arguments of a function: words for parts of a date stand for themselves *)
ArgErrs(ts, env) ==
  Concat([x \in DOMAIN ts |-> IF ts[x].o = "col" /\ ts[x].v \in DateWords THEN <<>> ELSE Errs(ts[x], env)])

ChainErrs(t, env) ==
  LET first == t.k[1]
      rest == Tail(t.k)
      inner == Concat([x \in DOMAIN rest |->
                 CASE rest[x].o = "func" -> ArgErrs(Flatten(rest[x].k[1]), env)
                   [] rest[x].o = "index" -> Errs(rest[x].k[2], env)
                   [] OTHER -> <<>>])
      alias == NameOf(first)
      name == NameOf(rest[1])
      mine == { f \in env : f.q = alias }
      near == IF mine = {} THEN {} ELSE { f \in mine : f.d = MinDepth(mine) }
  IN IF first.o \notin {"col", "str"} THEN inner \o Errs(first, env)
     ELSE IF rest[1].o = "func" THEN inner
     ELSE IF \E x \in DOMAIN t.k : IsPlaceholder(t.k[x]) THEN inner
     ELSE IF \/ \E f \in near : rest[1].o = "star" \/ f.n \in {name, "*"}
             \/ IsOpen(env)
             \/ mine = {} /\ \E f \in env : f.n = "*"
             \/ \E f \in env : f.n = alias              \* a field of the column of that name
     THEN inner
     ELSE inner \o << "The column " \o Dotted([x \in DOMAIN rest |-> Text(rest[x])]) \o " was not found in alias " \o alias >>

Errs(t, env) ==
  LET e(x) == Errs(t.k[x], env)
      l(x) == ErrsList(t.k[x], env)
  IN CASE t.o = "col" -> IF IsName(t) THEN ColumnErr(t, env) ELSE <<>>
       [] t.o = "chain" -> ChainErrs(t, env)
       [] t.o \in {"func", "funcd", "countd"} -> ArgErrs(Flatten(t.k[1]), env)
       [] t.o = "aagg" ->
            ArgErrs(<<t.k[2]>>, env) \o
            (IF t.k[4].o = "none" THEN <<>> ELSE Concat([x \in DOMAIN Flatten(t.k[4].k[1]) |-> Errs(Flatten(t.k[4].k[1])[x].k[1], env)]))
       [] t.o \in {"cast", "castx", "paren", "neg", "extract", "isnull", "not", "on", "some"} -> e(1)
       [] t.o = "tuple" -> l(1)
       [] t.o = "array" -> l(1)
       [] t.o \in {"psub", "exists", "arrsub"} -> SelErrs(t.k[1], env)
       [] t.o = "insub" -> e(1) \o SelErrs(t.k[2], env)
       [] t.o = "case" ->
            e(1) \o Concat([x \in DOMAIN Flatten(t.k[2]) |->
                              Errs(Flatten(t.k[2])[x].k[1], env) \o Errs(Flatten(t.k[2])[x].k[2], env)]) \o e(3)
       [] t.o = "over" ->
            e(1) \o l(2) \o
            (IF t.k[3].o = "none" THEN <<>> ELSE Concat([x \in DOMAIN Flatten(t.k[3].k[1]) |-> Errs(Flatten(t.k[3].k[1])[x].k[1], env)]))
       [] t.o \in {"index", "filter", "ar", "cmp", "like"} -> e(1) \o e(2)
       [] t.o = "in" -> e(1) \o l(2)
       [] t.o = "between" -> e(1) \o e(2) \o e(3)
       [] t.o = "and" -> e(1) \o e(2) \o BoolArg("AND", t.k[1], env) \o BoolArg("AND", t.k[2], env)
       [] t.o = "or" -> e(1) \o e(2) \o BoolArg("OR", t.k[1], env) \o BoolArg("OR", t.k[2], env)
       [] t.o = "item" -> e(1)
       [] t.o = "ralias" -> e(1)
       [] t.o = "except" ->
            LET names == { f.n : f \in StarOver(t.k[1], env) }
                as == Flatten(t.k[2])
            IN e(1) \o Concat([x \in DOMAIN as |-> IF NameOf(as[x]) \in names \/ "*" \in names THEN <<>> ELSE NotFound(Text(as[x]))])
       [] t.o = "replace" ->
            LET as == Flatten(t.k[2])
            IN e(1) \o Concat([x \in DOMAIN as |-> Errs(as[x].k[1], env) \o Errs(as[x].k[2], env)])
       [] t.o = "oitem" -> e(1)
       [] OTHER -> <<>>

(* the conditions of joins see the queries around; sources do not *)
SourceErrs(t, outer) ==
  CASE t.o = "sub" -> SelErrs(t.k[1], {})
    [] t.o = "psrc" -> FromErrs(t.k[1], Flatten(t.k[2]), outer)
    [] OTHER -> <<>>
FromErrs(src, joins, outer) ==
  IF joins = <<>> THEN SourceErrs(src, outer)
  ELSE LET j == Lst(joins)
           left == JoinFields(src, Front(joins))
           right == SourceFields(j.k[1])
           cols == IF j.k[2].o = "using" THEN Flatten(j.k[2].k[1]) ELSE <<>>
       IN FromErrs(src, Front(joins), outer) \o SourceErrs(j.k[1], outer) \o
          (CASE j.k[2].o = "on" -> Errs(j.k[2].k[1], outer \cup JoinFields(src, joins))
             [] j.k[2].o = "using" -> Concat([x \in DOMAIN cols |-> IF IsCommon(cols[x], left, right) THEN <<>>
                                                                  ELSE NotFound(Text(cols[x]))])
             [] OTHER -> IF j.v \in {"CROSS JOIN", ","} THEN <<>> ELSE << "Missing ON or USING for join" >>)

RECURSIVE Unwrapped(_)
Unwrapped(t) == IF t.o = "paren" THEN Unwrapped(t.k[1]) ELSE t
(* GROUP BY looks into brackets, also those around lists *)
RECURSIVE Spread(_)
Spread(ts) == IF ts = <<>> THEN <<>>
              ELSE (CASE Head(ts).o = "paren" -> Spread(<<Head(ts).k[1]>>)
                      [] Head(ts).o = "tuple" -> Spread(Flatten(Head(ts).k[1]))
                      [] OTHER -> <<Head(ts)>>) \o Spread(Tail(ts))

Value == [v \in {"0", "1", "2", "3", "4", "5", "10", "007"} |->
            CASE v = "0" -> 0 [] v = "1" -> 1 [] v = "2" -> 2 [] v = "3" -> 3 [] v = "4" -> 4 [] v = "5" -> 5
              [] v = "10" -> 10 [] v = "007" -> 7]
Shown == [v \in {"007"} |-> "7"]
PositionErr(what, v, items) ==
  IF /\ v \in DOMAIN Value /\ Value[v] > 0
     /\ (Value[v] <= Len(items) \/ \E x \in DOMAIN items : ItemAlias(items[x]).o = "none" /\ IsStar(ItemExpr(items[x])))
  THEN <<>>
  ELSE << what \o " position " \o (IF v \in DOMAIN Shown THEN Shown[v] ELSE v) \o " is not in select list" >>
IsInteger(t) == t.o = "num" /\ ~IsFloat(t.v) /\ t.v # "+4"

GroupErr(t, env, items) ==
  CASE IsInteger(t) -> PositionErr("GROUP BY", t.v, items)
    [] t.o \in {"col", "str"} ->
         IF IsPlaceholder(t) \/ t.v \in Niladic \/ IsOpen(env) \/ TypeAlone(t) = "str" THEN <<>>
         ELSE LET name == NameOf(t)
                  c == Cardinality(Targets(name, env))
              IN IF c > 1 THEN Ambiguous(name) ELSE IF c = 0 THEN << "column \"" \o name \o "\" does not exist" >> ELSE <<>>
    [] OTHER -> Errs(t, env)
OrderErr(t, env, items) ==
  LET e == Unwrapped(t.k[1])
  IN IF IsInteger(e) THEN PositionErr("ORDER BY", e.v, items) ELSE Errs(t.k[1], env)
BoundErr(t, variable, negative) ==
  LET e == Unwrapped(t)
  IN IF t.o = "none" \/ t.o = "kw" THEN <<>>
     ELSE IF ~IsInteger(e) THEN << variable >>
     ELSE IF SubSeq(e.v, 1, 1) = "-" THEN << negative >> ELSE <<>>

SelErrs(sel, env) ==
  IF sel.o = "query" THEN
    Concat([x \in DOMAIN Flatten(sel.k[1]) |-> SelErrs(Flatten(sel.k[1])[x].k[1], {})]) \o SelErrs(sel.k[2], env)
  ELSE IF sel.o = "psub" THEN SelErrs(sel.k[1], env)
  ELSE
  LET outer == { Field(f.q, f.n, f.t, f.d + 1) : f \in env }
      fs == outer \cup FromFields(sel.k[3])
      wide == fs \cup AliasedFields(sel)
      items == Flatten(sel.k[2])
      gs == IF sel.k[5].o = "none" THEN <<>> ELSE Spread(Flatten(sel.k[5].k[1]))
      os == IF sel.k[8].o = "none" THEN <<>> ELSE Flatten(sel.k[8].k[1])
      sets == Flatten(sel.k[7])
      cond(c, what) == IF c.o = "none" THEN <<>> ELSE Errs(c.k[1], fs) \o BoolArg(what, c.k[1], fs)
  IN (IF sel.k[1].o = "diston" THEN ErrsList(sel.k[1].k[1], wide) ELSE <<>>)
     \o ErrsAll(items, fs)
     \o (IF sel.k[3].o = "none" THEN <<>> ELSE FromErrs(sel.k[3].k[1], Flatten(sel.k[3].k[2]), outer))
     \o cond(sel.k[4], "WHERE")
     \o Concat([x \in DOMAIN gs |-> GroupErr(gs[x], wide, items)])
     \o cond(sel.k[6], "HAVING")
     \o Concat([x \in DOMAIN sets |-> SelErrs(sets[x].k[1], env)])
     \o Concat([x \in DOMAIN os |-> OrderErr(os[x], wide, items)])
     \o BoundErr(sel.k[9], "argument of LIMIT must not contain variables", "LIMIT must not be negative")
     \o BoundErr(sel.k[10], "argument of OFFSET must be integer", "OFFSET must not be negative")

Errors(t) == SelErrs(t, {})
=============================================================================
