--------------------------------- MODULE Cli ---------------------------------
(* Histories of the command line over a tree of files: runs in every mode over lists of inputs that repeat, overlap, are
   spelled differently or do not exist, and edits in between.                                                       *)
EXTENDS PyFile, Randomization

CONSTANTS MaxSteps,    \* number of steps of a history
          MaxInputs,   \* length of the list of inputs of a run
          Worlds       \* the worlds a history may begin with ({} = any)

VARIABLES world, begin, hist, n, last
vars == <<world, begin, hist, n, last>>

(* ----------------------------------------------------------------- contents *)
A(v) == Literal("", "'", Spell(Sql[v].v, "'", "esc"), v)
B(v) == Literal("", "\"\"\"", Spell(Sql[v].v, "\"\"\"", "esc"), v)
St(l) == <<Code("q = "), l, End>>
StC(l, c) == <<Code("q = "), l, Gap("  "), Com(c), End>>
Bad(s) == << [c |-> "bad", s |-> s] >>
Deep == Len(Sql)
Kinds ==
  << <<Code("x = 1"), End>>,
     St(A(3)),
     St(B(3)) \o StC(A(3), "# nosqlformat") \o St(A(1)) \o St(A(2)),
     St(A(19)),
     St(A(20)) \o St(B(19)),
     StC(A(20), "# nosqlvalidation") \o St(A(21)) \o StC(B(20), "# nosqlformat") \o St(A(19)),
     St(A(3)) \o St(A(23)) \o St(A(20)),
     St(A(Deep)) \o St(A(3)),
     Bad("utf8") \o St(A(3)),
     Bad("cookie") \o St(A(3)),
     St(A(3)) \o Bad("bracket"),
     St(A(20)) \o Bad("dedent"),
     Bad("nul"),
     StC(A(23), "# nosqlformat nosqlvalidation") \o St(A(3)) \o St(A(19)),
     StC(A(23), "# nosqlformat") \o St(A(3)),
     StC(A(23), "# nosqlvalidation") \o St(A(20)),
     St(B(5)) \o St(A(2)),
     << >>,
     << Code("q = "), B(21) >>,
     St(A(3)) \o St(A(1)) \o St(B(22)) \o St(A(20)) >>
IsBad(ps) == \E x \in DOMAIN ps : ps[x].c = "bad"
FailsAll(ps, f, v) == IF IsBad(ps) THEN "fails" ELSE Fails(ps, f, v)
(* everything a run may ask about a content, worked out once.  A content is 2 * k for Kinds[k], 2 * k + 1 for what
   formatting makes of it, 0 for a file that is not there                                                       *)
About(ps) == [t |-> Encode(ps), ch |-> IF IsBad(ps) THEN 0 ELSE Cardinality(Changed(ps)), loc |-> IF IsBad(ps) THEN <<>> ELSE Locations(ps),
              fail |-> <<FailsAll(ps, TRUE, FALSE), FailsAll(ps, FALSE, TRUE), FailsAll(ps, TRUE, TRUE)>>]
ContentOf(c) == IF c % 2 = 0 \/ IsBad(Kinds[c \div 2]) THEN Kinds[c \div 2] ELSE Formatted(Kinds[c \div 2])
Table == [c \in 2..(2 * Len(Kinds) + 1) |-> About(ContentOf(c))]
NotThere == << <<"absent", "">> >>
TextOf(c) == IF c = 0 THEN NotThere ELSE Table[c].t
After(c) == IF c % 2 = 0 THEN c + 1 ELSE c
Fail(c, f, v) == Table[c].fail[IF ~v THEN 1 ELSE IF ~f THEN 2 ELSE 3]
(* what is formatted stays as it is *)
ASSUME \A k \in DOMAIN Kinds : Table[2 * k + 1].ch = 0 \/ IsBad(Kinds[k])

(* -------------------------------------------------------------------- paths *)
Paths == << "a.py", "b.py", "n.txt", "d/a.py", "d/e/c.py", "d/e/__init__.py", "d/.h/x.py", "d/.y.py", "d/dir.py/q.py", "d/k.pyi", "d/z.PY",
            "d/py", "d/.py", "d/e/m n.o.py", "d/x.py~" >>
P == DOMAIN Paths
IsPy(p) == p \in {1, 2, 4, 5, 6, 7, 8, 9, 13, 14}
(* links: d/s.py -> a.py, d/e/gone.py -> nothing; links/la.py -> a.py, links/ld -> d *)
InD == {4, 5, 6, 7, 8, 9, 13, 14}
InE == {5, 6, 14}
Drop(s, k) == From1(s, k + 1)
(* an input: a file, or a directory with the names of what is below it: <<name, path, is it a symbolic link>>; path 0:
   nothing there.  100 is the target of the dangling link d/e/gone.py                                          *)
FileIn(s, p) == [k |-> "file", s |-> s, ps |-> { <<s, p, FALSE>> }]
DirIn(s, pre, cut, ps, links) ==
  [k |-> "dir", s |-> s,
   ps |-> { <<pre \o Drop(Paths[p], cut), p, FALSE>> : p \in ps } \cup { <<l, 1, TRUE>> : l \in links } \cup
          (IF InE \subseteq ps THEN { <<pre \o Drop("d/e/gone.py", cut), 100, TRUE>> } ELSE {})]
InputTable ==
  << FileIn("a.py", 1), FileIn("b.py", 2), FileIn("./a.py", 1), FileIn("d/../a.py", 1), FileIn("CWD/a.py", 1), FileIn("d//a.py", 4),
     FileIn("n.txt", 3), FileIn("d/z.PY", 11), FileIn("d/e/c.py", 5), FileIn("../links/la.py", 1), FileIn("d/s.py", 1),
     FileIn("missing.py", 0), FileIn("d/missing/", 0), FileIn("d/e/gone.py", 0),
     DirIn("d", "d/", 2, InD, {"d/s.py"}), DirIn("d/", "d/", 2, InD, {"d/s.py"}),
     DirIn("./d/e", "./", 0, InE, {}), DirIn("d/e/../e", "d/e/../e/", 4, InE, {}), DirIn("CWD/d", "CWD/d/", 2, InD, {"CWD/d/s.py"}),
     DirIn("../links/ld", "../links/ld/", 2, InD, {"../links/ld/s.py"}),
     DirIn("d/dir.py", "d/dir.py/", 9, {9}, {}),
     DirIn(".", "./", 0, {1, 2} \cup InD, {"./d/s.py"}) >>
Inputs == DOMAIN InputTable

(* -------------------------------------------------------------------- a run *)
(* what a run reports about one file: nothing, or a block of lines *)
Block(shown, p, c, f, v) ==
  LET fl == Fail(c, f, v)
  IN [s |-> shown, p |-> p, fail |-> fl, ch |-> IF fl # "" \/ ~f THEN 0 ELSE Table[c].ch,
      loc |-> IF fl # "" \/ ~v THEN <<>> ELSE Table[c].loc]
Gone(s) == [s |-> s, p |-> 0, fail |-> "fails", ch |-> 0, loc |-> <<>>]
There(w, p) == p \in P /\ w[p] # 0
RECURSIVE Groups(_, _, _, _, _)
Groups(w, inputs, seen, f, v) ==
  IF inputs = <<>> THEN <<>>
  ELSE LET i == InputTable[Head(inputs)]
           \* a walk meets a link whatever it leads to; what a file and a link to it both name is met as the file first
           here == { x \in i.ps : IF i.k = "dir" /\ x[3]
                                  THEN ~(\E y \in i.ps : ~y[3] /\ y[2] = x[2] /\ There(w, y[2]))
                                  ELSE There(w, x[2]) }
           new == { x \in here : x[2] \notin seen }
       IN << [invalid |-> i.k = "file" /\ here = {},
              blocks |-> { IF There(w, x[2]) THEN Block(x[1], x[2], w[x[2]], f, v) ELSE Gone(x[1]) : x \in new }] >>
          \o Groups(w, Tail(inputs), seen \cup { x[2] : x \in here }, f, v)
RECURSIVE SumCh(_), SumInv(_)
SumCh(bs) == IF bs = {} THEN 0 ELSE LET b == CHOOSE b \in bs : TRUE IN b.ch + SumCh(bs \ {b})
SumInv(bs) == IF bs = {} THEN 0 ELSE LET b == CHOOSE b \in bs : TRUE IN Len(b.loc) + SumInv(bs \ {b})
(* mode: fmt \in "none", "check", "format";  val \in "none", "validate", "verbose" *)
Run(w, fmt, val, inputs) ==
  LET gs == Groups(w, inputs, {}, fmt # "none", val # "none")
      bs == UNION { gs[x].blocks : x \in DOMAIN gs }
      ch == SumCh(bs)
      inv == SumInv(bs)
      done == { b.p : b \in { c \in bs : c.ch > 0 } }
  IN [groups |-> gs, ch |-> ch, files |-> Cardinality(done), inv |-> inv, invfiles |-> Cardinality({ b \in bs : b.loc # <<>> }),
      exit |-> IF (fmt = "check" /\ ch > 0) \/ (val = "validate" /\ inv > 0) THEN 1 ELSE 0,
      world |-> IF fmt # "format" THEN w ELSE [p \in P |-> IF p \in done THEN After(w[p]) ELSE w[p]]]

Modes == { <<f, v>> \in {"none", "check", "format"} \X {"none", "validate", "verbose"} : f # "none" \/ v # "none" }

(* ------------------------------------------------------------------ histories *)
FixedWorld(k) == [p \in P |-> IF (p + k) % 9 = 0 THEN 0 ELSE 2 * (1 + ((p * 7 + k * 5) % Len(Kinds)))]
Good == << 3, 2, 20, 4, 5, 6, 14, 17, 19, 20, 2, 3, 3, 4, 20 >>
GoodWorld == [p \in P |-> 2 * Good[p]]
(* one file that cannot be analysed among others *)
OneBad(p, k) == [GoodWorld EXCEPT ![p] = 2 * k]
WorldTable == << GoodWorld, FixedWorld(1), OneBad(4, 7), OneBad(1, 9), OneBad(5, 8), FixedWorld(3) >>
Show(w) == [p \in P |-> TextOf(w[p])]

DoRun(fmt, val, inputs) ==
  LET r == Run(world, fmt, val, inputs)
  IN /\ world' = r.world
     /\ hist' = Append(hist, [op |-> "run", fmt |-> fmt, val |-> val, inputs |-> [x \in DOMAIN inputs |-> InputTable[inputs[x]].s],
                              groups |-> r.groups, ch |-> r.ch, files |-> r.files, inv |-> r.inv, invfiles |-> r.invfiles,
                              exit |-> r.exit, after |-> [p \in P |-> IF r.world[p] = world[p] THEN <<>> ELSE TextOf(r.world[p])]])
     /\ last' = inputs /\ UNCHANGED begin
Edit(p, c) == /\ world' = [world EXCEPT ![p] = c]
               /\ hist' = Append(hist, [op |-> "edit", p |-> p, c |-> TextOf(c)])
               /\ UNCHANGED <<last, begin>>
(* combinations of options that are refused, whatever the inputs *)
BadOptions == << <<>>, <<"--format", "--check-format">>, <<"--validate", "--verbose-validate">>, <<"--format", "--check-format", "--validate">>,
                 <<"--check-format", "--verbose-validate", "--validate">>, <<"--check-format", "--unknown">> >>
Refused(o, inputs) == /\ hist' = Append(hist, [op |-> "refused", options |-> BadOptions[o], inputs |-> [x \in DOMAIN inputs |-> InputTable[inputs[x]].s]])
                      /\ UNCHANGED <<world, last, begin>>
Init == /\ n = 0 /\ last = <<>> /\ hist = <<>>
        /\ world \in { WorldTable[k] : k \in Worlds }
        /\ begin = Show(world)
RunLists == UNION { [1..m -> Inputs] : m \in 1..MaxInputs }
Next == /\ n < MaxSteps /\ n' = n + 1
        /\ \/ \E m \in Modes : \E i \in RunLists : DoRun(m[1], m[2], i)
           \/ \E o \in DOMAIN BadOptions : \E i \in { r \in RunLists : Len(r) = 1 } : Refused(o, i)
           \/ \E o \in DOMAIN BadOptions : Refused(o, <<>>)
RandomInputs(m) == [x \in 1..m |-> RandomElement(Inputs)]
NextSome ==
  /\ n < MaxSteps /\ n' = n + 1
  /\ \E z \in {RandomElement(1..16)} :
       IF z = 16
       THEN \E o \in {RandomElement(DOMAIN BadOptions)} : \E len \in {RandomElement(0..MaxInputs)} : \E i \in {RandomInputs(len)} : Refused(o, i)
       ELSE IF z \in 1..4 /\ n > 0
       THEN \E p \in {RandomElement(P)} : \E k \in {RandomElement(0..Len(Kinds))} : Edit(p, 2 * k)
       ELSE \E m \in {RandomElement(Modes)} : \E len \in {RandomElement(1..MaxInputs)} : \E i \in {RandomInputs(len)} :
              \* often the same inputs again, and a rewriting
              DoRun(IF z \in 5..7 THEN "format" ELSE m[1], m[2], IF z \in 7..9 /\ last # <<>> THEN last ELSE i)
InitSome == /\ n = 0 /\ last = <<>> /\ hist = <<>>
            /\ world \in {TLCEval([p \in P |-> 2 * (RandomElement(0..(Len(Kinds) + 5)) % (Len(Kinds) + 1))])}
            /\ begin = Show(world)
Spec == Init /\ [][Next]_vars
SpecSome == InitSome /\ [][NextSome]_vars

(* -------------------------------------------- what has to hold in every world (for the inputs of the last run) *)
Blocks(r) == UNION { r.groups[x].blocks : x \in DOMAIN r.groups }
Names(r) == { <<b.s, b.ch>> : b \in { c \in Blocks(r) : c.ch > 0 } }
CheckPredictsFormat ==
  \A v \in {"none", "validate"} :
    LET c == Run(world, "check", v, last)
        f == Run(world, "format", v, last)
    IN /\ Names(c) = Names(f) /\ c.ch = f.ch /\ c.files = f.files
       /\ c.world = world
       /\ v = "none" => (c.exit = 1 <=> f.world # world)
Converges == LET once == Run(world, "format", "none", last)
                 twice == Run(once.world, "format", "none", last)
             IN twice.ch = 0 /\ twice.world = once.world /\ Run(once.world, "check", "none", last).exit = 0
(* each file once *)
ProcessedOnce == LET gs == Run(world, "check", "verbose", last).groups
                     bs(x) == { b.p : b \in gs[x].blocks } \ {0}
                 IN \A x, y \in DOMAIN gs : x # y => bs(x) \cap bs(y) = {}
(* a file that cannot be analysed counts as if it were not there *)
Contained == LET r == Run(world, "check", "validate", last)
                 bad == { p \in P : There(world, p) /\ Fail(world[p], TRUE, TRUE) # "" }
                 s == Run([p \in P |-> IF p \in bad THEN 0 ELSE world[p]], "check", "validate", last)
             IN r.ch = s.ch /\ r.inv = s.inv /\ r.exit = s.exit /\ r.files = s.files /\ r.invfiles = s.invfiles
Report == hist = <<>> \/ n < MaxSteps \/ PrintT("@" \o ToJson([p |-> "", w |-> begin, h |-> hist]))
=============================================================================
