------------------------------- MODULE PyLit -------------------------------
(* Python string literals as --format sees and rewrites them.

   A text is a TLA+ string in which some characters stand for others: ~ line feed, ^ carriage return, ! tab,
   @ a letter outside ASCII (e acute), & a sign outside Latin-1 (euro), ? form feed, ` a letter outside the BMP.
   A literal is [p, q, b, v]: prefix, opening (= closing) quotes, body as it stands in the source, and the number of
   the SQL text it holds.  What the SQL formatter and validator say about that text is a parameter (Sql): the
   properties of files have to hold whatever they answer.                                                    *)
EXTENDS Naturals, Sequences, FiniteSets, TLC, Json, IOUtils

(* Sql[v] = [v |-> value, f |-> formatted text, s |-> "ok" | "fails" | "deep", e |-> number of validation errors]:
   "fails": the text cannot be parsed as a SELECT;  "deep": it is nested too deeply to be analysed *)
Sql == JsonDeserialize(IOEnv.SQL_TABLE)

Sub(s, i, j) == IF i > j THEN "" ELSE SubSeq(s, i, j)
From1(s, i) == Sub(s, i, Len(s))
Ch(s, i) == IF i \in 1..Len(s) THEN SubSeq(s, i, i) ELSE ""
StartsAt(s, i, w) == Sub(s, i, IF i + Len(w) - 1 > Len(s) THEN Len(s) ELSE i + Len(w) - 1) = w
Contains(s, w) == \E i \in 1..Len(s) : StartsAt(s, i, w)

IsRaw(p) == p \in {"r", "R", "rb", "Rb", "bR", "BR", "br"}
IsBytes(p) == p \in {"b", "B", "rb", "Rb", "bR", "BR", "br"}
Triple(q) == Len(q) = 3
Quote(q) == SubSeq(q, 1, 1)

(* ------------------------------------------------- what Python reads: the value of a body *)
Escapes == ("\\" :> "\\") @@ ("'" :> "'") @@ ("\"" :> "\"") @@ ("n" :> "~") @@ ("t" :> "!") @@ ("r" :> "^") @@ ("~" :> "")
Hex == ("27" :> "'") @@ ("22" :> "\"") @@ ("41" :> "A") @@ ("e9" :> "@") @@ ("5c" :> "\\") @@ ("0a" :> "~") @@ ("09" :> "!")
Uni == ("00e9" :> "@") @@ ("20ac" :> "&") @@ ("0027" :> "'") @@ ("0041" :> "A")
RECURSIVE EvalFrom(_, _, _, _)
EvalFrom(b, i, raw, bytes) ==
  IF i > Len(b) THEN ""
  ELSE LET c == Ch(b, i)
           d == Ch(b, i + 1)
           x2 == Sub(b, i + 2, i + 3)
           x4 == Sub(b, i + 2, i + 5)
       IN IF c = "^" THEN "~" \o EvalFrom(b, i + 1, raw, bytes)          \* a line end, too
          ELSE IF c # "\\" \/ raw \/ d = "" THEN c \o EvalFrom(b, i + 1, raw, bytes)
          ELSE IF d \in DOMAIN Escapes THEN Escapes[d] \o EvalFrom(b, i + 2, raw, bytes)
          ELSE IF d = "x" /\ x2 \in DOMAIN Hex THEN Hex[x2] \o EvalFrom(b, i + 4, raw, bytes)
          ELSE IF d = "u" /\ ~bytes /\ x4 \in DOMAIN Uni THEN Uni[x4] \o EvalFrom(b, i + 6, raw, bytes)
          ELSE c \o EvalFrom(b, i + 1, raw, bytes)
(* what follows the end of the literal that begins with this body and closing quotes; 0 = it does not end *)
RECURSIVE EndOf(_, _, _)
EndOf(s, i, q) ==
  IF i > Len(s) THEN 0
  ELSE IF Ch(s, i) = "\\" THEN EndOf(s, i + 2, q)
  ELSE IF StartsAt(s, i, q) THEN i
  ELSE IF Ch(s, i) \in {"~", "^"} /\ ~Triple(q) THEN 0
  ELSE EndOf(s, i + 1, q)
NotAscii == {"@", "&", "`"}
Lexes(p, q, b) == /\ EndOf(b \o q, 1, q) = Len(b) + 1
                  /\ IsBytes(p) => \A i \in 1..Len(b) : Ch(b, i) \notin NotAscii
Value(p, q, b) == EvalFrom(b, 1, IsRaw(p), IsBytes(p))

(* ------------------------------------------------------------ ways to write a value *)
(* one character, in a style *)
CharIn(style, c, q) ==
  CASE style = "esc" ->
         (CASE c = "\\" -> "\\\\" [] c = Quote(q) -> "\\" \o c [] c = "^" -> "\\r"
            [] c = "~" -> (IF Triple(q) THEN "~" ELSE "\\n") [] OTHER -> c)
    [] style = "every" ->
         (CASE c = "\\" -> "\\\\" [] c = "'" -> "\\'" [] c = "\"" -> "\\\"" [] c = "~" -> "\\n" [] c = "^" -> "\\r"
            [] c = "!" -> "\\t" [] c = "@" -> "\\xe9" [] c = "&" -> "\\u20ac" [] OTHER -> c)
    [] style = "hex" ->
         (CASE c = "'" -> "\\x27" [] c = "\"" -> "\\x22" [] c = "\\" -> "\\x5c" [] c = "~" -> "\\x0a" [] c = "@" -> "\\u00e9"
            [] c = "&" -> "\\u20ac" [] c = "^" -> "\\r" [] OTHER -> c)
    [] style = "few" ->        \* quotes stay as they are
         (CASE c = "\\" -> "\\\\" [] c = "^" -> "\\r" [] c = "~" -> (IF Triple(q) THEN "~" ELSE "\\n") [] OTHER -> c)
    [] style = "back" -> (CASE c = "\\" -> "\\\\" [] c = "^" -> "\\r" [] OTHER -> c)
RECURSIVE Chars(_, _, _, _)
Chars(v, i, style, q) == IF i > Len(v) THEN "" ELSE CharIn(style, Ch(v, i), q) \o Chars(v, i + 1, style, q)
Spell(v, q, style) ==
  IF style = "broken"          \* a backslash at the end of a line joins it with the next
  THEN Chars(Sub(v, 1, 7), 1, "esc", q) \o "\\~" \o Chars(From1(v, 8), 1, "esc", q)
  ELSE Chars(v, 1, style, q)
Styles == {"esc", "every", "hex", "few", "broken"}
(* the bodies that hold this SQL: those whose source text begins with the word SELECT and white space *)
RECURSIVE SkipWhite(_, _)
SkipWhite(s, i) == IF Ch(s, i) \in {" ", "~", "!", "?"} THEN SkipWhite(s, i + 1) ELSE i
SelectWords == {"select", "SELECT", "Select"}
IsSelectBody(b) == LET i == SkipWhite(b, 1)
                   IN /\ Sub(b, i, IF i + 5 > Len(b) THEN Len(b) ELSE i + 5) \in SelectWords
                      /\ Ch(b, i + 6) \in {" ", "~", "!", "?"}
Literal(p, q, b, v) == [c |-> "lit", p |-> p, q |-> q, b |-> b, v |-> v]
Literals(ps, qs, vs) ==
  { l \in { Literal(p, q, Spell(Sql[v].v, q, style), v) :
            p \in { x \in ps : ~IsRaw(x) }, q \in qs, v \in vs, style \in Styles } \cup
          { Literal(p, q, Sql[v].v, v) : p \in { x \in ps : IsRaw(x) }, q \in qs, v \in vs } :
      Lexes(l.p, l.q, l.b) /\ Value(l.p, l.q, l.b) = Sql[l.v].v /\ IsSelectBody(l.b) }
Source(l) == l.p \o l.q \o l.b \o l.q

(* -------------------------------------------------------------- the rewriting of a literal *)
(* as the values of escape_string: backslashes, carriage returns, and the closing quotes wherever they stand *)
RECURSIVE EscQuotes(_, _, _), BackAll(_)
BackAll(q) == IF q = "" THEN "" ELSE "\\" \o Ch(q, 1) \o BackAll(From1(q, 2))
EscQuotes(s, i, q) == IF i > Len(s) THEN ""
                      ELSE IF StartsAt(s, i, q) THEN BackAll(q) \o EscQuotes(s, i + Len(q), q)
                      ELSE Ch(s, i) \o EscQuotes(s, i + 1, q)
Escape(value, q) ==
  EscQuotes(Chars(value, 1, "back", q), 1, q)

Wrapped(f, q) == IF Triple(q) /\ (Contains(f, "~") \/ Ch(f, Len(f)) = Quote(q)) THEN "~" \o f \o "~" ELSE f
NewQuotes(f, q) == IF ~Triple(q) /\ Contains(f, "~") THEN q \o q \o q ELSE q
Rewrite(l) ==
  LET s == Sql[l.v]
      q2 == NewQuotes(s.f, l.q)
      w == Wrapped(s.f, q2)
      b2 == IF IsRaw(l.p) THEN w ELSE Escape(w, q2)
  IN IF s.s # "ok" \/ (s.v = w /\ l.q = q2) THEN l
     ELSE IF Lexes(l.p, q2, b2) /\ Value(l.p, q2, b2) = w
          THEN [l EXCEPT !.q = q2, !.b = b2]
          ELSE l                                   \* it cannot be written down without changing its meaning

(* the specification's own side of C18 and C21 *)
MeansFormatted(l) == LET n == Rewrite(l)
                         value == Value(n.p, n.q, n.b)
                     IN \/ n = l
                        \/ /\ n.p = l.p
                           /\ Quote(n.q) = Quote(l.q)
                           /\ Lexes(n.p, n.q, n.b)
                           /\ value \in { Sql[l.v].f, "~" \o Sql[l.v].f \o "~" }
=============================================================================
