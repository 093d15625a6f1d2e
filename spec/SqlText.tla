------------------------------ MODULE SqlText ------------------------------
(* Text as the formatter builds it.  A word is <<glue, class, text>>: glue=1 means no space before it;
   class "k" = keyword / function / type name (canonically upper case), "n" = name or literal (verbatim),
   "o" = punctuation or operator.  A line is [i |-> indentation, w |-> words]; a text is a non-empty
   sequence of lines.  Tokens are kept apart from layout, so that the model can state that no rule of the
   layout loses, adds or moves a token (Flat).                                                         *)
EXTENDS Naturals, Sequences, FiniteSets, TLC

RECURSIVE FoldSp(_, _), FoldGl(_, _), FoldNl(_, _)

Wd(c, s) == << [i |-> 0, w |-> << <<0, c, s>> >>] >>
K(s) == Wd("k", s)
O(s) == Wd("o", s)
V(s) == Wd("n", s)

Front(s) == SubSeq(s, 1, Len(s) - 1)
Lst(s) == s[Len(s)]

(* B starts on the last line of A, after a space (g=0) or directly (g=1) *)
Cat(A, B, g) ==
  LET la == Lst(A)
      fb == Head(B)
      w0 == fb.w[1]
  IN Front(A) \o << [i |-> la.i, w |-> la.w \o << <<g, w0[2], w0[3]>> >> \o Tail(fb.w)] >> \o Tail(B)

FoldSp(ts, acc) == IF ts = <<>> THEN acc ELSE FoldSp(Tail(ts), Cat(acc, Head(ts), 0))
FoldGl(ts, acc) == IF ts = <<>> THEN acc ELSE FoldGl(Tail(ts), Cat(acc, Head(ts), 1))
FoldNl(ts, acc) == IF ts = <<>> THEN acc ELSE FoldNl(Tail(ts), acc \o Head(ts))
S(ts) == FoldSp(Tail(ts), Head(ts))      \* joined by single spaces
G(ts) == FoldGl(Tail(ts), Head(ts))      \* joined directly
L(ts) == FoldNl(Tail(ts), Head(ts))      \* each starts a new line

(* every line moved right by n;   every line but the first moved right by n *)
IndAll(A, n) == [x \in DOMAIN A |-> [i |-> A[x].i + n, w |-> A[x].w]]
Ind(A, n) == [x \in DOMAIN A |-> IF x = 1 THEN A[x] ELSE [i |-> A[x].i + n, w |-> A[x].w]]

RECURSIVE WordsSize(_)
WordsSize(w) == IF w = <<>> THEN 0 ELSE (1 - Head(w)[1]) + Len(Head(w)[3]) + WordsSize(Tail(w))
LineSize(l) == l.i + WordsSize(l.w) - (1 - l.w[1][1])
RECURSIVE Size(_)
Size(A) == IF Len(A) = 1 THEN LineSize(A[1]) ELSE LineSize(Head(A)) + 1 + Size(Tail(A))
Multi(A) == Len(A) > 1

Comma(A) == Cat(A, O(","), 1)
CommaAll(ts) == [x \in DOMAIN ts |-> IF x = Len(ts) THEN ts[x] ELSE Comma(ts[x])]
CommaSp(ts) == S(CommaAll(ts))
CommaNl(ts) == L(CommaAll(ts))
MapIndAll(ts, n) == [x \in DOMAIN ts |-> IndAll(ts[x], n)]
MapInd(ts, n) == [x \in DOMAIN ts |-> Ind(ts[x], n)]
AnyMulti(ts) == \E x \in DOMAIN ts : Multi(ts[x])

(* the token sequence of a text *)
RECURSIVE FlatWords(_), Flat(_)
FlatWords(w) == IF w = <<>> THEN <<>> ELSE << <<Head(w)[2], Head(w)[3]>> >> \o FlatWords(Tail(w))
Flat(A) == IF A = <<>> THEN <<>> ELSE FlatWords(Head(A).w) \o Flat(Tail(A))

(* compact form for printing: indentation, then glue+class+text per word *)
Digit == <<"0", "1">>
EncLine(l) == << ToString(l.i) >> \o [x \in DOMAIN l.w |-> Digit[l.w[x][1] + 1] \o l.w[x][2] \o l.w[x][3]]
EncText(A) == [x \in DOMAIN A |-> EncLine(A[x])]
EncToks(T) == [x \in DOMAIN T |-> T[x][1] \o T[x][2]]
=============================================================================
