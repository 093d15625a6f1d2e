----------------------------- MODULE QueryObject -----------------------------
(* Query objects and their histories.  An object reads its text once, when an answer first needs it, and validates once;
   format_sql reads its text every time.  Whatever was called before, every answer has to be a function of the text.

   A text is <<slot, variant>>: the texts of one slot are spellings of, or close to, one query:
     plain    the query
     spaced   other white space and case of keywords: another text of the same query
     swapped  the case of the names changed: another query
     literal  the inside of its string literals changed: another query
     broken   no SELECT any more
   Verdict and Tree are uninterpreted: what they are for a text is what a fresh process answers.                     *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, Randomization

CONSTANTS MaxObjects, MaxSteps, Slots, Variants

VARIABLES objs, hist
vars == <<objs, hist>>

Texts == Slots \X Variants
Unparsable(t) == t[2] = "broken"
(* the answers to expect *)
Tree(t) == <<"tree", t>>
FormatOf(t) == IF Unparsable(t) THEN <<"raises">> ELSE <<"formatted", t>>
ErrorsOf(t) == IF Unparsable(t) THEN <<"not empty", t>> ELSE <<"errors", t>>
ValidOf(t) == IF Unparsable(t) THEN <<"false">> ELSE <<"no errors", t>>

(* what the object does: read the text when it is first needed, remember the outcome *)
NotYet == <<"none">>
New(t) == [t |-> t, tree |-> NotYet, done |-> FALSE, errors |-> NotYet]
Read(o) == IF o.tree # NotYet \/ Unparsable(o.t) THEN o ELSE [o EXCEPT !.tree = Tree(o.t)]
Validated(o) == IF o.done THEN o
                ELSE LET r == Read(o)
                     IN [r EXCEPT !.done = TRUE, !.errors = IF r.tree = NotYet THEN <<"not empty", r.t>> ELSE <<"errors", r.tree[2]>>]
AnswerValid(o) == LET e == Validated(o).errors IN IF e[1] = "not empty" THEN <<"false">> ELSE <<"no errors", e[2]>>
AnswerFormat(o) == LET r == Read(o) IN IF r.tree = NotYet THEN <<"raises">> ELSE <<"formatted", r.tree[2]>>

Step(s) == hist' = Append(hist, s)
Create == /\ Len(objs) < MaxObjects
          /\ \E t \in Texts : objs' = Append(objs, New(t)) /\ Step([op |-> "new", o |-> Len(objs) + 1, t |-> t, a |-> NotYet])
IsValid(k) == /\ objs' = [objs EXCEPT ![k] = Validated(@)]
              /\ Step([op |-> "valid", o |-> k, t |-> objs[k].t, a |-> AnswerValid(objs[k])])
(* before the first is_valid() the list says nothing *)
Errors(k) == /\ objs' = objs
             /\ Step([op |-> "errors", o |-> k, t |-> objs[k].t, a |-> objs[k].errors])
Format(k) == /\ objs' = [objs EXCEPT ![k] = Read(@)]
             /\ Step([op |-> "format", o |-> k, t |-> objs[k].t, a |-> AnswerFormat(objs[k])])
FormatSql(t) == objs' = objs /\ Step([op |-> "format_sql", o |-> 0, t |-> t, a |-> FormatOf(t)])

Init == objs = <<>> /\ hist = <<>>
Next == /\ Len(hist) < MaxSteps
        /\ \/ Create
           \/ \E k \in DOMAIN objs : IsValid(k) \/ Errors(k) \/ Format(k)
           \/ \E t \in Texts : FormatSql(t)
Spec == Init /\ [][Next]_vars
NextSome ==
  /\ Len(hist) < MaxSteps
  /\ \E z \in {RandomElement(1..8)} :
       IF objs = <<>> \/ (z = 1 /\ Len(objs) < MaxObjects)
       THEN \E t \in {RandomElement(Texts)} : objs' = Append(objs, New(t)) /\ Step([op |-> "new", o |-> Len(objs) + 1, t |-> t, a |-> NotYet])
       ELSE IF z = 2 THEN \E t \in {RandomElement(Texts)} : FormatSql(t)
       ELSE \E k \in {RandomElement(DOMAIN objs)} : IF z \in 3..4 THEN IsValid(k) ELSE IF z \in 5..6 THEN Format(k) ELSE Errors(k)
SpecSome == Init /\ [][NextSome]_vars

(* every answer given is the one the text alone determines *)
ByTextAlone ==
  \A x \in DOMAIN hist :
    LET s == hist[x]
    IN s.a = (CASE s.op = "new" -> NotYet
                [] s.op = "valid" -> ValidOf(s.t)
                [] s.op \in {"format", "format_sql"} -> FormatOf(s.t)
                [] OTHER -> IF \E y \in 1..(x - 1) : hist[y].op = "valid" /\ hist[y].o = s.o THEN ErrorsOf(s.t) ELSE NotYet)
NeverValid == \A x \in DOMAIN hist : Unparsable(hist[x].t) /\ hist[x].op = "valid" => hist[x].a = <<"false">>
Report == Len(hist) < MaxSteps \/ PrintT("@" \o ToJson([x \in DOMAIN hist |-> <<hist[x].op, hist[x].o, hist[x].t[1], hist[x].t[2], hist[x].a[1]>>]))
=============================================================================
