------------------------------- MODULE Query -------------------------------
(* The state machine: a query grows feature by feature.  Every state is printed with what the specification
   says about it; the harness replays it through the code.                                                *)
EXTENDS Syntax, Json, Randomization

CONSTANTS MaxDepth, Bases, Fanout

VARIABLES tree, n
vars == <<tree, n>>

BaseSelect == Query(Sel(Items1(1), FromT(1)))
BaseTable ==
  << BaseSelect,
     Query(Sel(Items1(1), HNo("from"))),
     Query(Select(HNo("mod"), Items1(1), FromT(1), N("some", "", <<N("and", "", <<HC(2), HB(3)>>)>>), HNo("group"),
                  HNo("having"), HNo("order"), HNo("limit"), HNo("offset"))),
     Query(Select(HNo("mod"), Cons(Item(HB(1)), Cons(Item(HB(2)), HNil("items"))), FromT(1), N("some", "", <<HB(3)>>),
                  N("group", "BY", <<Cons(HB(1), HNil("gitems"))>>), N("some", "", <<HB(4)>>),
                  N("worder", "", <<Cons(N("oitem", "", <<HB(2), HNo("dir"), HNo("nulls2")>>), HNil("oitems"))>>),
                  N("num", "10", <<>>), N("num", "5", <<>>))) >>

Init == /\ n = 0
        /\ tree \in { BaseTable[b] : b \in Bases }
Next == /\ n < MaxDepth
        /\ tree' \in { e \in Edits(tree) : WellFormed(e) }
        /\ n' = n + 1
(* for simulation: a few random successors of every state *)
NextSome == /\ n < MaxDepth
            /\ n' = n + 1
            /\ \E j \in 1..Fanout : \E i \in {RandomElement(1..Holes(tree))} :
                 \E p \in {RandomElement(Prods(HoleAt(tree, i)))} :
                   \E e \in {Fill(tree, i, p)} : WellFormed(e) /\ tree' = e
SpecSome == Init /\ [][NextSome]_vars
Spec == Init /\ [][Next]_vars

(* model-level properties: the layout neither loses nor adds a token, starts at column 0 *)
TokensKept == Flat(Lay(tree)) = Toks(tree)
ShapeOK == LET A == Lay(tree) IN /\ A[1].i = 0
                                 /\ \A x \in DOMAIN A : A[x].w # <<>>

Report == PrintT("@" \o ToJson([t |-> EncToks(Toks(tree)), l |-> EncText(Lay(tree)), n |-> n]))
=============================================================================
