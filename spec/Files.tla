-------------------------------- MODULE Files --------------------------------
(* One Python file that grows statement by statement; every state is a complete file.  For each the specification says
   what --format makes of it, what validation reports, and which runs cannot analyse it.                          *)
EXTENDS PyFile, Randomization

CONSTANTS MaxStatements, Rich, Encodings, Eols    \* Rich: which literals are tried

VARIABLES file, n, enc, eol
vars == <<file, n, enc, eol>>

AllSql == DOMAIN Sql
FewSql == {1, 2, 3, 4, 19, 20}
Prefixes == {"", "r", "R", "u", "U", "b", "B", "rb", "bR", "BR"}
Quotes == {"'", "\"", "'''", "\"\"\""}
LitSet ==
          IF Rich = "all" THEN Literals(Prefixes, Quotes, AllSql)
          ELSE IF Rich = "quotes" THEN Literals({"", "r"}, Quotes, AllSql)
          ELSE { l \in Literals({""}, {"'", "\"\"\""}, FewSql) : l.b = Spell(Sql[l.v].v, l.q, "esc") }
Comments == { "# nosqlformat", "# nosqlvalidation", "#nosqlformat, nosqlvalidation", "# other", "# NOSQLFORMAT", "# x nosqlformatted",
              "# 'select a from t'", "#" }
Other == { Str("'select'"), Str("'selected b'"), Str("'x'"), Str("\"update t 'select a from t'\""), Str("f'select a from {t}'"),
           Str("'''~ doc~'''"), Str("r'\\d'"), Str("'@`'"), Str("b' '"), Str("\" selects a\"") }

(* statements over a literal l, another l2, a comment c and another string o *)
Q(l) == <<Code("q = "), l>>
Statements(l, l2, c, o) ==
  { Q(l) \o <<End>>,
    Q(l) \o <<EndWith("  !~")>>,
    Q(l) \o <<Gap("  "), Com(c), End>>,
    Q(l) \o <<End, Com(c), Gap("~")>>,
    Q(l) \o <<End, Gap("~"), Gap("    "), Com(c), Gap("~~")>>,
    <<Com(c), Gap("~")>> \o Q(l) \o <<End>>,
    Q(l) \o <<Gap(" "), Com("# other"), End, Com(c), Gap("~")>>,
    Q(l) \o <<Code("; p="), l2, Gap(" "), Com(c), End>>,
    Q(l) \o <<Code(".format(x)"), End, Code("y = 1"), Gap(" "), Com(c), End>>,
    Q(l) \o <<End, Code("y = "), o, Gap(" "), Com(c), End>>,
    Q(l) \o <<Code(" % (x, )"), Gap(" "), Com(c), End>>,
    <<Code("f("), Gap("~ !"), l, Code(","), Gap("  "), Com(c), Gap("~    "), l2, Code(","), Gap("~"), Code(")"), End>>,
    <<Code("f("), l, Code(", "), l2, Code(")"), Gap(" "), Com(c), End>>,
    <<Code("f("), o, Code(", "), l, Code(", "), o, Code(")"), Gap(" "), Com(c), End>>,
    <<Code("x = ["), Gap("~    "), Com(c), Gap("~    "), l, Gap("~"), Code("]"), End>>,
    <<Code("if x:"), EndWith("~    "), Code("y = {"), o, Code(": "), l, Code("}"), End, Gap("?~"), Code("z = 1"), End>>,
    <<Code("def f():"), EndWith(" ~!"), l, End, Code("!return "), o, End>>,
    <<Code("x = 1 + \\"), Gap("~"), Code("  f("), l, Code(")"), End>>,
    <<Code("assert "), l, Code(", "), l2, EndWith(" ~~~")>>,
    <<Code("class A:"), EndWith("~  "), l, Gap(" "), Com(c), End, Gap("~"), Code("  b = "), l2, End>>,
    \* parts of one string
    Q(l) \o <<Gap(" "), l2, End>>,
    Q(l) \o <<Gap(" "), o, End>>,
    <<Code("q = "), o, l, End>>,
    <<Code("q = ("), Gap("~  "), l, Gap("~  "), l2, Gap("~"), Code(")"), End>>,
    <<Code("q = ("), o, Gap("  "), Com(c), Gap("~~    "), l, Code(")"), End>>,
    Q(l) \o <<Gap(" \\~   "), o, End>>,
    <<Code("f("), l, Gap(" "), l, Gap(" "), o, Code(", "), l2, Code(")"), Gap(" "), Com(c), End>> }
Plains(c, o) == { <<Com(c), Gap("~")>>, <<Code("x  =  1 "), Gap("   "), Com(c), End>>, <<Code("y ="), o, End>>, <<Gap("  !~~")>>,
                  <<Code("if x : pass"), EndWith("  ~~")>> }
(* a character outside Latin-1 cannot be written in a Latin-1 file *)
OutOf(e, s) == e = "latin-1" /\ \E i \in 1..Len(s) : Ch(s, i) \in {"&", "`"}
Fits(e, new) == \A x \in DOMAIN new : ~OutOf(e, PieceText(new[x]))
Encodable(ps) == \A x \in DOMAIN ps : ~OutOf(enc, PieceText(Formatted(ps)[x]))
(* "" or how a run that formats (f) and validates (v) fails *)
Outcome(f, v) == LET o == Fails(file, f, v) IN IF o = "" /\ f /\ ~Encodable(file) THEN "fails" ELSE o

Add(new) == Fits(enc, new) /\ file' = file \o new /\ n' = n + 1 /\ UNCHANGED <<enc, eol>>
FixL == Literal("", "'", "select 1", 1)
FixL2 == Literal("", "\"\"\"", "select a from t", 3)
Init == /\ enc \in Encodings /\ eol \in Eols
        /\ file = IF enc = "latin-1" THEN <<Com("# -*- coding: latin-1 -*-"), Gap("~")>> ELSE <<>>
        /\ n = 0
Ended == IF n = 0 THEN TRUE ELSE file[Len(file)].c \in {"end", "gap"}
Next ==
  /\ n < MaxStatements /\ Ended
  /\ \/ \E l \in LitSet : Add(Q(l) \o <<End>>)
     \/ \E c \in Comments : \E s \in Statements(FixL, FixL2, c, Str("'x'")) : Add(s)
     \/ \E o \in Other : \E s \in Statements(FixL2, FixL, "# nosqlformat", o) : Add(s)
     \/ \E c \in Comments : \E s \in Plains(c, Str("'x'")) : Add(s)
     \/ \E l \in LitSet : Add(<<Code("q = "), l>>)        \* the file ends without a line end
Spec == Init /\ [][Next]_vars
(* for simulation *)
NextSome ==
  /\ n < MaxStatements /\ Ended
  /\ \E k \in {RandomElement(1..5)} : \E l \in {RandomElement(LitSet)} : \E l2 \in {RandomElement(LitSet)} :
       \E c \in {RandomElement(Comments)} : \E o \in {RandomElement(Other)} :
         \E s \in {RandomElement(IF k = 1 THEN Plains(c, o) ELSE Statements(l, l2, c, o))} : Add(s)
SpecSome == Init /\ [][NextSome]_vars

(* the specification's own side: only literals change, and those that do mean the formatted SQL *)
Sound == OnlyLiterals(file)
LitOf == [x \in DOMAIN file |-> IF file[x].c = "lit" THEN file[x].v ELSE 0]
Report == PrintT("@" \o ToJson([p |-> Encode(file), g |-> Encode(Formatted(file)), ch |-> Cardinality(Changed(file)),
                                loc |-> Locations(file), lits |-> LitOf, enc |-> enc, eol |-> eol,
                                ff |-> Outcome(TRUE, FALSE), fv |-> Outcome(FALSE, TRUE), fb |-> Outcome(TRUE, TRUE),
                                part |-> { x \in DOMAIN file : file[x].c = "lit" /\ IsPart(file, x) }, n |-> n]))
=============================================================================
