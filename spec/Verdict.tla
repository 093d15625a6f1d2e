------------------------------ MODULE Verdict ------------------------------
(* The same graph of queries, reported with the verdict the specification gives. *)
EXTENDS Semantics, Json, Randomization
CONSTANTS MaxDepth, Bases, Fanout
VARIABLES tree, n
vars == <<tree, n>>


(* sources with known columns, Col[i] and Col[j], under the name Als[x] or none *)
Cols2(i, j) == Cons(Item(HB(i)), Cons(Item(HB(j)), HNil("items")))
Bare1(x) == N("bare", "", <<C(Als[x])>>)
Sub1(i, x) == N("sub", "", <<Sel(Items1(i), FromT(1)), IF x = 0 THEN HNo("talias") ELSE Bare1(x)>>)
Sub2(i, j, x) == N("sub", "", <<Sel(Cols2(i, j), FromT(1)), IF x = 0 THEN HNo("talias") ELSE Bare1(x)>>)
SubOf(sel, x) == N("sub", "", <<sel, IF x = 0 THEN HNo("talias") ELSE Bare1(x)>>)
FromJ(src, joins) == N("from", "", <<src, joins>>)
Join1(kind, src, cond) == N("cons", "", <<N("join", kind, <<src, cond>>), HNil("joins")>>)
Star == N("star", "", <<>>)
Dot(x, c) == N("chain", "", <<C(x), C(c)>>)
DotStar(x) == N("chain", "", <<C(x), Star>>)
StarItem(e) == HK("item", "item", "", <<e, HNo("none")>>)
Exists(sel) == N("exists", "", <<sel>>)
BaseTable ==
  << Query(Sel(Items1(1), FromT(1))),
     Query(Sel(Items1(1), HNo("from"))),
     Query(Sel(Items1(1), From(Sub1(1, 0)))),
     Query(Sel(Items1(1), From(Sub2(1, 2, 1)))),
     \* 5: a join of two closed sources
     Query(Sel(Cols2(1, 2), FromJ(Sub2(1, 2, 1), Join1("JOIN", Sub2(2, 5, 2), N("on", "", <<N("cmp", "=", <<HA(1), HA(5)>>)>>))))),
     \* 6: a subquery that uses the query around it
     Query(Select(HNo("mod"), Items1(1), From(Sub2(1, 2, 1)),
                  N("some", "", <<Exists(Select(HNo("mod"), Items1(2), From(Sub2(2, 5, 2)), N("some", "", <<HB(5)>>), HNo("group"),
                                                HNo("having"), HNo("order"), HNo("limit"), HNo("offset")))>>),
                  HNo("group"), HNo("having"), HNo("order"), HNo("limit"), HNo("offset"))),
     \* 7: stars through two levels
     Query(Sel(Items1(1), From(SubOf(Sel(Cons(Item(Star), HNil("items")),
                                         From(SubOf(Sel(Cons(StarItem(DotStar(Als[1])), Cons(Item(HB(5)), HNil("items"))),
                                                        From(Sub2(1, 2, 1))), 0))), 2)))),
     \* 8: three sources, columns merged by USING
     Query(Sel(Items1(2), FromJ(Sub2(1, 2, 1),
         N("cons", "", <<N("join", "JOIN", <<Sub2(2, 5, 2), Using>>),
                         Join1("LEFT JOIN", Sub1(5, 3), N("on", "", <<HB(1)>>))>>)))),
     \* 9: a name for everything, and every clause that can use it
     Query(Select(HNo("mod"), Cons(HK("item", "item", "", <<HB(1), N("as", "", <<C(Als[3])>>)>>), HNil("items")),
                  From(Sub2(1, 2, 1)), N("some", "", <<HB(1)>>), N("group", "BY", <<Cons(HB(1), HNil("gitems"))>>),
                  N("some", "", <<HB(1)>>),
                  N("worder", "", <<Cons(N("oitem", "", <<HB(1), HNo("dir"), HNo("nulls2")>>), HNil("oitems"))>>),
                  HNo("limit"), HNo("offset"))),
     \* 10: set operation and WITH
     N("query", "", <<Cons(N("cte", Tab[1], <<Sel(Items1(1), From(Sub1(1, 1)))>>), HNil("ctes")),
                      N("select", "", <<HNo("mod"), Items1(1), From(Sub1(1, 1)), HNo("where"), HNo("group"), HNo("having"),
                                        N("cons", "", <<N("set", "UNION ALL", <<Branch(Items1(2), From(Sub1(2, 2)))>>), HNil("sets")>>),
                                        HNo("order"), HNo("limit"), HNo("offset")>>), HNo("semi")>>),
     \* 11: sources and their join in brackets
     Query(Sel(Items1(1), From(N("psrc", "", <<Sub2(1, 2, 1), Join1("JOIN", Sub2(2, 5, 2), N("on", "", <<HB(1)>>))>>)))) >>

(* a vocabulary of names only, used instead of the whole dialect to go deeper (substituted in the configuration) *)
NameTerms == { C("a"), C("b"), C("c"), Dot("x", "a"), Dot("x", "b"), Dot("y", "b"), Dot("y", "c"), Dot("x", "c"),
               N("chain", "", <<C("b"), C("a")>>), Num("1"), Num("2.5"), N("str", "'s'", <<>>) }
NameAriths == NameTerms \cup { N("ar", "+", <<HT(1), HA(2)>>), Par(HB(1)), N("psub", "", <<Sel(Items1(1), From(Sub1(1, 2)))>>) }
NameCmps == NameAriths \cup { N("cmp", "=", <<HA(1), HA(2)>>), N("isnull", "IS NULL", <<HA(1)>>), Exists(SubNoFrom(2)) }
NameBools == NameCmps \cup { N("and", "", <<HC(1), HB(2)>>), N("or", "", <<HC(2), HB(1)>>) }
NameAliases == { N("as", "", <<C("c")>>), N("bare", "", <<C("a")>>) }
NameStars == { Star, DotStar("x"), DotStar("y"), N("except", "", <<Star, Cons(C("b"), HNil("eargs"))>>),
               N("except", "", <<DotStar("x"), Cons(C("a"), HNil("none"))>>),
               N("replace", "", <<Star, Cons(N("ralias", "", <<HB(1), C("b")>>), HNil("none"))>>) }
NameSrcs == { Sub1(1, 0), Sub2(1, 2, 2), SubOf(Sel(Cons(Item(Star), HNil("items")), From(Sub1(5, 1))), 1),
              N("tsrc", "", <<C("t"), Bare1(1)>>), N("tsrc", "", <<N("brk", "", <<C("p"), C("t")>>), Bare1(2)>>),
              N("psrc", "", <<Sub1(2, 1), HNil("joins")>>) }
NameJoinKinds == { "JOIN", "LEFT JOIN", "JOIN EACH" }
NameSetKinds == { "UNION ALL" }

Init == /\ n = 0
        /\ tree \in { BaseTable[b] : b \in Bases }
Next == /\ n < MaxDepth
        /\ tree' \in { e \in Edits(tree) : WellFormed(e) }
        /\ n' = n + 1
NextSome == /\ n < MaxDepth
            /\ n' = n + 1
            /\ \E j \in 1..Fanout : \E i \in {RandomElement(1..Holes(tree))} :
                 \E p \in {RandomElement(Prods(HoleAt(tree, i)))} :
                   \E e \in {Fill(tree, i, p)} : WellFormed(e) /\ tree' = e
SpecSome == Init /\ [][NextSome]_vars
Spec == Init /\ [][Next]_vars
Report == PrintT("@" \o ToJson([t |-> EncToks(Toks(tree)), e |-> Errors(tree), n |-> n]))
=============================================================================
