------------------------------- MODULE PyFile -------------------------------
(* A Python file as the file handler sees it: a sequence of pieces
     lit   a string literal that begins with SELECT (see PyLit)
     str   any other string literal, or an f-string
     com   a comment
     end   the end of a logical line
     gap   white space, or the end of a line that is not the end of a logical line
     code  anything else
   and what a run does to it.                                                                              *)
EXTENDS PyLit

Code(s) == [c |-> "code", s |-> s]
Gap(s) == [c |-> "gap", s |-> s]
Str(s) == [c |-> "str", s |-> s]
Com(s) == [c |-> "com", s |-> s]
End == [c |-> "end", s |-> "~"]
EndWith(s) == [c |-> "end", s |-> s]
PieceText(p) == IF p.c = "lit" THEN Source(p) ELSE p.s

NoFormat == "nosqlformat"
NoValidation == "nosqlvalidation"

(* the first comment after piece x, if no other string comes before it *)
CommentAfter(ps, x) ==
  LET later == { y \in (x + 1)..Len(ps) : ps[y].c \in {"com", "lit", "str"} }
  IN IF later = {} THEN ""
     ELSE LET y == CHOOSE y \in later : \A z \in later : y <= z IN IF ps[y].c = "com" THEN ps[y].s ELSE ""
(* adjacent strings are one: each holds a part of the SQL only *)
Beside(ps, x, step) ==
  LET near == { y \in DOMAIN ps : /\ (IF step = 1 THEN y > x ELSE y < x)
                                  /\ ps[y].c \notin {"gap", "com"} }
  IN IF near = {} THEN FALSE
     ELSE LET y == CHOOSE y \in near : \A z \in near : IF step = 1 THEN y <= z ELSE y >= z
          IN ps[y].c \in {"lit", "str"}
IsPart(ps, x) == Beside(ps, x, 1) \/ Beside(ps, x, 0)

(* modes: f = format or check, v = validate *)
ForFormat(ps, x) == ps[x].c = "lit" /\ ~IsPart(ps, x) /\ ~Contains(CommentAfter(ps, x), NoFormat)
ForValidation(ps, x) == ps[x].c = "lit" /\ ~IsPart(ps, x) /\ ~Contains(CommentAfter(ps, x), NoValidation)
Processed(ps, f, v) == { x \in DOMAIN ps : (f /\ ForFormat(ps, x)) \/ (v /\ ForValidation(ps, x)) }
RECURSIVE Lines(_, _)
Lines(s, i) == IF i > Len(s) THEN 0 ELSE (IF Ch(s, i) = "~" THEN 1 ELSE 0) + Lines(s, i + 1)
RECURSIVE LineOf(_, _)
LineOf(ps, x) == IF x = 1 THEN 1 ELSE Lines(PieceText(ps[x - 1]), 1) + LineOf(ps, x - 1)

(* a file one of whose strings cannot be parsed is not touched *)
First(ps, xs, status) == { x \in xs : Sql[ps[x].v].s = status }
Fails(ps, f, v) == LET xs == Processed(ps, f, v)
                       bad == { x \in xs : Sql[ps[x].v].s # "ok" }
                   IN IF bad = {} THEN "" ELSE Sql[ps[CHOOSE x \in bad : \A y \in bad : x <= y].v].s
Formatted(ps) == [x \in DOMAIN ps |-> IF ForFormat(ps, x) THEN Rewrite(ps[x]) ELSE ps[x]]
Changed(ps) == { x \in DOMAIN ps : Formatted(ps)[x] # ps[x] }
Invalid(ps) == { x \in DOMAIN ps : ForValidation(ps, x) /\ Sql[ps[x].v].e > 0 }

RECURSIVE Increasing(_)
Increasing(xs) == IF xs = {} THEN <<>> ELSE LET m == CHOOSE m \in xs : \A y \in xs : m <= y IN <<m>> \o Increasing(xs \ {m})
(* the line and the SQL of every invalid string, from top to bottom *)
Locations(ps) == [k \in DOMAIN Increasing(Invalid(ps)) |->
                    LET x == Increasing(Invalid(ps))[k] IN <<LineOf(ps, x), ps[x].v>>]

(* after formatting: nothing else changes, and nothing changes again.  The literals of the new file hold the formatted
   SQL, whose own formatted text is itself.                                                                        *)
OnlyLiterals(ps) == \A x \in DOMAIN ps : LET y == Formatted(ps)[x]
                                         IN y # ps[x] => ps[x].c = "lit" /\ MeansFormatted(ps[x])
Encode(ps) == [x \in DOMAIN ps |-> <<ps[x].c, PieceText(ps[x])>>]
=============================================================================
