------------------------------- MODULE Damage -------------------------------
(* Texts that are nearly queries: a query whose tokens were damaged here and there.  Whether such a text is still a query
   is not decided here (except where brackets do not close, see Hopeless); what holds for every text is
     - a text that is formatted keeps all its tokens, in order, up to those in Optional
     - a text that cannot be formatted is never valid
     - white space does not matter
     - what is formatted stays as it is                                                                              *)
EXTENDS Query

CONSTANTS MaxDamage, Few      \* Few: breadth first, only some extra tokens

VARIABLES toks, dmg
varsD == <<tree, n, toks, dmg>>

Extra ==
  { <<"k", w>> : w \in (IF Few THEN {"as", "from", "select", "not", "on", "in", "end", "offset", "desc", "union"}
                   ELSE {"and", "or", "as", "from", "by", "select", "not", "desc", "asc", "null", "distinct", "on", "limit", "in", "between",
                         "case", "when", "then", "else", "end", "interval", "row", "over", "with", "offset", "join", "all", "union", "type",
                         "date", "is", "using", "group", "order", "nulls", "last", "ignore", "unnest", "any", "where", "having", "except",
                         "replace", "cross", "partition", "like", "exists", "struct", "array", "cast", "extract", "intersect", "true",
                         "rollup", "each", "filter", "current", "preceding", "rows", "first", "escape"}) } \cup
  { <<"o", w>> : w \in (IF Few THEN {"(", ")", ",", "*", "[", ";"}
                   ELSE {"(", ")", ",", "*", "=", "-", ".", "[", "]", ">", "<", "<>", ";", "||", "%", "/", "+", "&", "!="}) } \cup
  { <<"n", w>> : w \in (IF Few THEN {"x", "5"} ELSE {"x", "5", "'s'", "`q r`", "\"w\"", "1.5", "{p}", "''", "X"}) }

Put(T, i, t) == SubSeq(T, 1, i) \o <<t>> \o SubSeq(T, i + 1, Len(T))
Out(T, i) == SubSeq(T, 1, i - 1) \o SubSeq(T, i + 1, Len(T))
Swap(T, i, j) == [T EXCEPT ![i] = T[j], ![j] = T[i]]
Cut(T, i) == SubSeq(T, 1, i)

(* every way to damage T at one place; the first token stays *)
Damages(T) == { Put(T, i, t) : i \in 1..Len(T), t \in Extra } \cup { Out(T, i) : i \in 2..Len(T) } \cup
              { Put(T, i, T[j]) : i \in 1..Len(T), j \in 1..Len(T) } \cup
              { Swap(T, i, i + 1) : i \in 2..(Len(T) - 1) } \cup { Cut(T, i) : i \in 1..(Len(T) - 1) }
Pick(Of) == RandomElement(Of)
SomeDamage(T, z) ==
  IF z \in 1..5 \/ Len(T) < 4 THEN Put(T, Pick(1..Len(T)), Pick(Extra))
  ELSE IF z \in 6..7 THEN Out(T, Pick(2..Len(T)))
  ELSE IF z = 8 THEN Put(T, Pick(1..Len(T)), T[Pick(1..Len(T))])
  ELSE IF z = 9 THEN LET i == Pick(2..(Len(T) - 1)) IN TLCEval(Swap(T, i, i + 1))
  ELSE Cut(T, Pick(1..(Len(T) - 1)))

InitD == Init /\ toks = Toks(tree) /\ dmg = 0
NextD == \/ Next /\ dmg = 0 /\ toks' = Toks(tree') /\ UNCHANGED dmg
         \/ /\ n = MaxDepth /\ dmg < MaxDamage
            /\ toks' \in Damages(toks) /\ dmg' = dmg + 1 /\ UNCHANGED <<tree, n>>
SpecD == InitD /\ [][NextD]_varsD
NextSomeD == IF n < MaxDepth THEN NextSome /\ toks' = Toks(tree') /\ UNCHANGED dmg
             ELSE /\ dmg < MaxDamage
                  /\ \E z \in {Pick(1..10)} : toks' = TLCEval(SomeDamage(toks, z))
                  /\ dmg' = dmg + 1 /\ UNCHANGED <<tree, n>>
SpecSomeD == InitD /\ [][NextSomeD]_varsD

(* --------------------------------------------------------------------------------- what may be left out *)
Closers == { <<"o", ")">>, <<"o", "]">>, <<"o", ";">> } \cup
           { <<"k", w>> : w \in {"from", "where", "group", "having", "union", "intersect", "except", "order", "limit", "offset",
                                 "FROM", "WHERE", "GROUP", "HAVING", "UNION", "INTERSECT", "EXCEPT", "ORDER", "LIMIT", "OFFSET"} }
RECURSIVE Depth(_, _)
Depth(T, i) == IF i = 0 THEN 0
               ELSE LET d == Depth(T, i - 1)
                    IN IF T[i] = <<"o", "(">> THEN d + 1
                       ELSE IF T[i] = <<"o", ")">> /\ d > 0 THEN d - 1 ELSE d
(* a comma with nothing behind it, and closing brackets that close nothing *)
Optional(T) == { i \in DOMAIN T : \/ T[i] = <<"o", ",">> /\ (IF i = Len(T) THEN TRUE ELSE T[i + 1] \in Closers)
                                  \/ T[i] = <<"o", ")">> /\ Depth(T, i - 1) = 0 }
(* brackets that are never closed: no query whatever the rest is *)
Count(T, t) == Cardinality({ i \in DOMAIN T : T[i] = t })
Hopeless(T) == \/ Depth(T, Len(T)) > 0
               \/ Count(T, <<"o", "[">>) > Count(T, <<"o", "]">>)
               \/ Len(T) = 1
ReportD == dmg = 0 \/ PrintT("@" \o ToJson([t |-> EncToks(toks), o |-> Optional(toks), no |-> Hopeless(toks), n |-> dmg]))
=============================================================================
