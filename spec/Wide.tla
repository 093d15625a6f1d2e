-------------------------------- MODULE Wide --------------------------------
(* Conditions and calls whose text has a length around the limit at which they are broken.  A state is a query;
   it is reported once for every length of the column Padded with which some condition or call of the query has
   a size in Window.                                                                                        *)
EXTENDS Syntax, Json, Randomization

CONSTANTS MaxDepth, Bases, Fanout, Padded, Window

VARIABLES tree, n
vars == <<tree, n>>

RECURSIVE Rep(_)
Rep(k) == IF k = 0 THEN "" ELSE "w" \o Rep(k - 1)
Wider == [k \in 0..96 |-> Rep(k)]
RECURSIVE Pad(_, _)
Pad(t, k) == IF t.o = "col" /\ t.v = Padded THEN [t EXCEPT !.v = t.v \o Wider[k]]
             ELSE [t EXCEPT !.k = [x \in DOMAIN t.k |-> Pad(t.k[x], k)]]
RECURSIVE Has(_)
Has(t) == (t.o = "col" /\ t.v = Padded) \/ \E x \in DOMAIN t.k : Has(t.k[x])

(* the sizes that the layout compares with the limit *)
RECURSIVE Sizes(_)
Sizes(t) ==
  (CASE IsBool(t) -> { Size(S(<<Lay(t.k[1]), K(BoolKw(t)), Lay(t.k[2])>>)) }
     [] t.o \in {"func", "unnest"} /\ t.k[1].o = "cons" -> { Size(CommaSp(LayList(t.k[1]))) }
     [] t.o = "funcd" -> { 9 + Size(CommaSp(LayList(t.k[1]))) }
     [] OTHER -> {})
  \cup UNION { Sizes(t.k[x]) : x \in DOMAIN t.k }

Where(e) == Query(Select(HNo("mod"), Items1(1), FromT(1), N("some", "", <<e>>), HNo("none"), HNo("none"), HNo("none"),
                         HNo("none"), HNo("none")))
W(e) == Select(HNo("none"), ItemsOf(C("e")), From(N("tsrc", "", <<C("t"), N("none", "", <<>>)>>)), N("some", "", <<e>>), HNo("none"),
               HNo("none"), HNo("none"), HNo("none"), HNo("none"))
Plain(items, from) == Sel(items, from)
AndE == N("and", "", <<HC(1), HB(2)>>)
FunE == N("func", "FOO", <<Cons(HB(1), List1(2, "args"))>>)
T0 == N("tsrc", "", <<C("t"), N("none", "", <<>>)>>)
BaseTable ==
  << Query(W(AndE)), Query(W(FunE)),
     Query(Sel(ItemsOf(AndE), HNo("none"))), Query(Sel(Cons(Item(FunE), HNil("items")), HNo("none"))),
     \* HAVING, ON, WHEN
     Query(Select(HNo("none"), ItemsOf(C("e")), From(T0), HNo("none"), HNo("none"), N("some", "", <<AndE>>), HNo("none"), HNo("none"),
                  HNo("none"))),
     Query(Sel(ItemsOf(C("e")), N("from", "", <<T0, N("cons", "", <<N("join", "JOIN", <<T0, N("on", "", <<AndE>>)>>), HNil("none")>>)>>))),
     Query(Sel(ItemsOf(N("case", "", <<HNo("casex"), Cons(N("when", "", <<AndE, HB(3)>>), HNil("whens")), HNo("else")>>)), HNo("none"))),
     \* in brackets and in subqueries
     Query(W(N("paren", "", <<AndE>>))),
     Query(Sel(ItemsOf(C("e")), From(N("sub", "", <<W(AndE), HNo("talias")>>)))),
     Query(W(N("exists", "", <<W(AndE)>>))),
     Query(W(N("or", "", <<N("not", "", <<N("paren", "", <<AndE>>)>>), HB(3)>>))),
     N("query", "", <<Cons(N("cte", "q", <<W(AndE)>>), HNil("none")), W(HB(3)), HNo("semi")>>),
     Query(Sel(ItemsOf(C("e")), From(N("unnest", "", <<Cons(HB(1), List1(2, "args")), HNo("talias"), HNo("woff")>>)))),
     Query(Sel(ItemsOf(N("over", "", <<FunE, HNil("part"), HNo("worder"), HNo("none")>>)), HNo("none"))),
     Query(Sel(ItemsOf(N("funcd", "SUM", <<Cons(HB(1), List1(2, "args"))>>)), HNo("none"))),
     Query(Sel(ItemsOf(N("filter", "", <<FunE, AndE>>)), HNo("none"))) >>

WideTerms == { FunE, N("func", "SUM", <<List1(5, "args")>>), N("paren", "", <<HB(6)>>), N("psub", "", <<W(HB(1))>>),
               N("chain", "", <<C("x"), C("b")>>),
               N("case", "", <<HNo("casex"), Cons(N("when", "", <<HB(4), HB(1)>>), HNil("whens")), HNo("else")>>),
               N("tuple", "", <<Cons(HB(1), List1(2, "args"))>>), N("tuple", "", <<Cons(N("psub", "", <<W(C("x"))>>), List1(1, "args"))>>),
               N("cast", "INT64", <<HB(1)>>), N("index", "", <<C("x"), HA(1)>>), N("array", "", <<Cons(HB(1), List1(2, "args"))>>),
               N("over", "", <<N("func", "SUM", <<List1(1, "args")>>), List1(2, "part"), HNo("worder"), HNo("none")>>),
               N("filter", "", <<N("func", "SUM", <<List1(1, "args")>>), HB(2)>>) }
WideAriths == WideTerms \cup { N("ar", "+", <<HT(1), HA(2)>>) }
WideCmps == WideAriths \cup { N("cmp", "=", <<HA(1), HA(2)>>), N("not", "", <<HC(2)>>), N("in", "IN", <<HA(1), Cons(HA(2), List1(3, "args"))>>),
                            N("between", "BETWEEN", <<HA(1), HA(2), HA(3)>>), N("like", "NOT LIKE", <<HA(1), HA(2)>>),
                            N("isnull", "IS NOT NULL", <<HA(1)>>), N("insub", "NOT IN", <<HA(1), W(HB(2))>>),
                            N("exists", "", <<W(HB(1))>>),
                            N("cmp", "=", <<N("tuple", "", <<List1(1, "args")>>), N("tuple", "", <<Cons(HB(2), List1(3, "args"))>>)>>) }
WideBools == WideCmps \cup { N("and", "", <<HC(1), HB(2)>>), N("or", "", <<HC(3), HB(1)>>) }

Init == n = 0 /\ tree \in { BaseTable[b] : b \in Bases }
Next == /\ n < MaxDepth
        /\ tree' \in { e \in Edits(tree) : WellFormed(e) }
        /\ n' = n + 1
Spec == Init /\ [][Next]_vars
NextSome == /\ n < MaxDepth
            /\ n' = n + 1
            /\ \E j \in 1..Fanout : \E i \in {RandomElement(1..Holes(tree))} :
                 \E p \in {RandomElement(Prods(HoleAt(tree, i)))} :
                   \E e \in {Fill(tree, i, p)} : WellFormed(e) /\ tree' = e
SpecSome == Init /\ [][NextSome]_vars

(* the model's side of the property: broken exactly from the limit on (the first operand's line ends before the operator) *)
Fact(t) == PrintT("@" \o ToJson([t |-> EncToks(Toks(t)), l |-> EncText(Lay(t)), n |-> n]))
Lo == Window[1]
Hi == Window[2]
(* sizes grow with the length of the name: jump to the neighbourhood of the limit *)
Report ==
  ~Has(tree) \/ \A k \in 0..95 :
     LET t == Pad(tree, k)
     IN (\E s \in Sizes(t) : s \in Lo..Hi) => Fact(t)
Near == <<86, 90>>
=============================================================================
