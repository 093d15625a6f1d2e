"""Writes /verif/properties.jsonl (kept as code so that the text stays reviewable)."""
import json, os
HERE = os.path.dirname(os.path.abspath(__file__))
LEX="sqlvalidator/grammar/lexer.py"; SQL="sqlvalidator/grammar/sql.py"; TOK="sqlvalidator/grammar/tokeniser.py"
FH="sqlvalidator/file_handler.py"; MAIN="sqlvalidator/main.py"; VAL="sqlvalidator/sql_validator.py"; FMT="sqlvalidator/sql_formatter.py"
P=[]
def p(id,title,statement,over,text,why,files,mech,state=(),observe=()):
    P.append(dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],
        state=[dict(name=n,meaning=m,where=w) for n,m,w in state],observe_at=list(observe),hook_needed=None)))

DIAL=("every query of the supported SELECT dialect (WITH, DISTINCT [ON], expressions, CASE, CAST, window functions, "
      "subqueries, UNNEST, joins, set operations, GROUP BY/ROLLUP, HAVING, ORDER BY, LIMIT, OFFSET), nested to any depth")
p("C01","Formatting never drops, adds or reorders SQL",
  "For every query of the supported SELECT dialect, formatting succeeds and the formatted text, read token by token, is the same sequence of tokens as the input: no clause, operand, operator, alias, modifier or bracket is lost, invented, duplicated or moved. "
  "The only permitted differences are whitespace, the letter case of keywords and of function and type names, and the removal of a trailing comma at the end of a SELECT list. "
  "The same holds for any other text that formatting accepts, except that a comma in front of a clause or closing bracket and a closing bracket that closes nothing may also be dropped.",
  ["inputs"],DIAL,
  "The suite formats about 130 fixed queries, each exercising one construct in one position; it cannot settle that every construct survives in every position and combination.",
  [LEX,SQL,FMT],[("recursive-descent parser that must consume every token","grammar/lexer.py: ExpressionParser, SelectStatementParser, FromStatementParser"),("printers of each syntax node","grammar/sql.py: transform/__str__ methods")],
  observe=["sqlvalidator.format_sql","sqlvalidator.parse(...).format"])
p("C02","Formatting is idempotent",
  "Formatting an already formatted query returns exactly the same text: format(format(q)) == format(q) for every query of the supported dialect, whatever its nesting, its line lengths and the literals it contains. "
  "The same holds for any other text that formatting accepts without dropping anything.",
  ["inputs"],DIAL,"No test formats twice; the fixed point must exist for every combination of constructs and line lengths.",
  [LEX,SQL],[("layout decided only from the syntax tree","grammar/sql.py")],observe=["sqlvalidator.format_sql"])
p("C03","Formatting does not depend on input spacing or keyword case",
  "Two texts that differ only in the whitespace between tokens (spaces, tabs, line breaks, or none where the tokens stay separable) or in the letter case of keywords, function names and type names format to exactly the same text.",
  ["inputs"],DIAL+", under every spacing and keyword-casing of its token sequence","Each test uses one spelling of one query; the property compares every pair of spellings.",
  [TOK,LEX,SQL],[("tokeniser splitting on whitespace and operators and re-joining two-character operators","grammar/tokeniser.py"),("case-insensitive keyword comparison","grammar/tokeniser.py: lower, lexer.py")],observe=["sqlvalidator.format_sql"])
p("C04","Literals, quoted names and identifiers pass through unchanged",
  "Every string literal, quoted identifier and bare identifier of the query appears in the formatted text character for character, wherever it stands. "
  "This includes content that looks like SQL (keywords, operators, brackets, commas, semicolons, comment markers), runs of spaces, line breaks, the other quote characters, backslash-escaped and doubled quotes; number literals keep their value.",
  ["inputs"],"every literal content over the characters that matter to the lexer, in every syntactic position and next to every other literal",
  "Tests use a dozen literals; the tokeniser splits on 20 special characters and its behaviour depends on which other quotes occur in the whole text.",
  [TOK,LEX,SQL],[("splitting on string delimiters before anything else, with escapes","grammar/tokeniser.py: split_tokens"),("String node printing","grammar/sql.py: String")],observe=["sqlvalidator.format_sql"])
p("C05","The formatted layout follows one fixed set of rules",
  "In the formatted text every clause starts its own line; a list of several SELECT, GROUP BY or ORDER BY items is one item per line indented by one space; a parenthesised subquery in FROM, JOIN, an expression or WITH has its brackets on the surrounding lines and its body indented by exactly one space per nesting level; joins, ON/USING, set operators, window specifications and CASE branches are broken the same way in every context. "
  "The text has no trailing newline and a final semicolon is present exactly when the input had one.",
  ["inputs"],DIAL,"The expected layouts in the suite are samples; the rules must compose for every nesting of constructs.",
  [SQL],[("per-node layout, composed by indenting the text of the children","grammar/sql.py: transform/__str__ methods")],observe=["sqlvalidator.format_sql"])
p("C06","Conditions and calls break exactly at the 88-character limit",
  "An AND/OR condition is kept on one line exactly when its own text is shorter than 88 characters, and otherwise every operand starts a new line with its operator in front; a function call is broken one argument per line exactly when its argument list is longer than 88 characters or an argument itself spans lines. "
  "A broken condition in WHERE, HAVING, ON or WHEN, or inside brackets, moves to its own indented block.",
  ["inputs"],"every length of the operands around the limit, in every context in which conditions and calls occur","The tests use a handful of lengths, none of them at the boundary.",
  [SQL],[("DEFAULT_LINE_LENGTH comparisons","grammar/sql.py: BooleanCondition.transform, FunctionCall.__str__"),("block layout of WHERE/HAVING/ON/USING/WHEN","grammar/sql.py")],observe=["sqlvalidator.format_sql"])
p("C07","Keywords and function names are upper-cased, nothing else changes case",
  "In the formatted text every keyword, operator word, function name and type name of the query is upper-case, in every position; every other word (column, table, alias, literal, placeholder) keeps exactly the letter case it had in the input. "
  "A word that is a keyword only in some positions is upper-cased where it has that role, and a name of the same spelling keeps its case elsewhere: the part in EXTRACT, INTERVAL and TIMESTAMP_TRUNC, a type in CAST; YES, NO, NFC, NFD, NFKC, NFKD and the weekdays where an expression stands, but not as a table, an alias after AS or in front of or after a dot. _TABLE_SUFFIX and _PARTITIONDATE are always upper-cased; CURRENT_DATE and the like are names when written without brackets.",
  ["inputs"],DIAL+", in every letter-casing","Tests check the casing of the constructs they happen to contain.",
  [LEX,SQL],[("upper() at print time","grammar/sql.py"),("symbol/operator handling in the parser","grammar/lexer.py")],observe=["sqlvalidator.format_sql"])

p("C08","A query whose references all resolve is never rejected",
  "If every column a query uses is provided by its sources (a table provides any column; a subquery provides the columns and aliases it selects, and everything if it selects a star over a table), and its positions, limits, conditions and joins are well-formed, then is_valid() is true and errors is empty. "
  "In particular validation is schemaless: it never assumes a real table lacks a column.",
  ["inputs"],DIAL+", with resolvable references","The suite has about 45 valid queries; the property quantifies over all scopes and expressions.",
  [VAL,SQL],[("known_fields computation of every source","grammar/sql.py: known_fields properties"),("validate methods","grammar/sql.py")],
  state=[("known_fields","the columns visible to a scope","grammar/sql.py")],observe=["sqlvalidator.parse(...).is_valid","sqlvalidator.parse(...).errors"])
p("C09","Every use of a missing column is reported",
  "If a query uses an unqualified column that none of its sources (nor an enclosing query's) provides, is_valid() is false and errors names that column, wherever in the query the use occurs: select list, function argument, arithmetic, CASE, condition, WHERE, HAVING, ORDER BY, GROUP BY, join condition, window, nested or joined subquery, set-operation branch or WITH body. "
  "Each missing use yields one message and nothing else is reported. Names in quotes, and words that are date parts, types or keywords of the dialect, are not promised to be reported.",
  ["inputs"],DIAL+", over closed sources (subqueries with explicit columns)","Tests try one or two positions for the missing column.",
  [SQL,VAL],[("validate recursion through every node","grammar/sql.py"),("Column.validate","grammar/sql.py")],observe=["sqlvalidator.parse(...).errors"])
p("C10","Names resolve through aliases, joins and nested subqueries",
  "A qualified name is accepted exactly when the aliased source provides that column, and otherwise the message names the column and the alias; an unqualified name provided by several aliased closed sources is reported as ambiguous, by exactly one it is accepted. "
  "A star passes on exactly the columns of the subquery it ranges over, through any number of levels, and inner names never leak outwards. "
  "A source is closed when every column it can provide is known: a subquery over closed sources or with explicit columns; a plain table, and a star over one, provide every name.",
  ["inputs"],"every nesting of subqueries, aliases, stars and joins with every assignment of names","Tests cover two levels and two sources with fixed names.",
  [SQL],[("known_fields of SelectStatement, Alias, Join, Parenthesis","grammar/sql.py"),("ChainedColumns.validate, Column.validate","grammar/sql.py")],observe=["sqlvalidator.parse(...).errors"])
p("C11","GROUP BY and ORDER BY positions are checked against the select list",
  "An integer in GROUP BY or ORDER BY is accepted exactly when it lies between 1 and the number of select items (from 1 on, if one of the items is a star), whatever brackets surround it and whatever other items stand beside it; every other integer yields one message with that number. "
  "Names in GROUP BY and ORDER BY may be columns of the sources or aliases of the select list, and window ORDER BY positions are not checked against the select list.",
  ["inputs"],"every list length, position, bracket depth and mixture with names, in outer queries and subqueries","Tests check positions 1 and 2 on one-column queries.",
  [SQL],[("GroupByClause.validate, OrderByItem.validate","grammar/sql.py")],observe=["sqlvalidator.parse(...).errors"])
p("C12","LIMIT and OFFSET accept only non-negative integer literals",
  "LIMIT n and OFFSET n (also in brackets, and LIMIT ALL) are accepted exactly when n is a non-negative integer literal; a negative one, and anything that is not an integer literal, yields the corresponding message, in outer queries, subqueries and WITH bodies alike.",
  ["inputs"],"every operand kind at every bracket depth and query level","Tests check seven operands in outer queries.",
  [SQL],[("LimitClause.validate, OffsetClause.validate","grammar/sql.py")],observe=["sqlvalidator.parse(...).errors"])
p("C13","WHERE, HAVING, AND and OR accept only boolean operands",
  "A WHERE or HAVING condition, or an operand of AND/OR, whose type is known and not boolean (an integer, float, string or arithmetic expression, or a subquery column or alias defined as one) yields exactly one message naming the clause or operator and the type; operands of boolean or unknown type never do, and the bounds of BETWEEN are exempt.",
  ["inputs"],"every operand kind in every boolean context at every nesting level, and column types inherited from subqueries","Tests check one string and two integers.",
  [SQL],[("return_type and resolve_return_type","grammar/sql.py"),("WhereClause/HavingClause/BooleanCondition.validate","grammar/sql.py")],observe=["sqlvalidator.parse(...).errors"])
p("C14","Joins must have ON or USING, except cross joins",
  "Every join other than CROSS JOIN and the comma join that has neither ON nor USING yields one 'Missing ON or USING for join' message, wherever it stands in a chain of joins or a nested query; joins that have one, cross joins and comma joins never do.",
  ["inputs"],"every chain of join kinds and conditions at every nesting level","Tests check one missing condition on a two-table join.",
  [SQL,LEX],[("Join.validate","grammar/sql.py"),("FromStatementParser","grammar/lexer.py")],observe=["sqlvalidator.parse(...).errors"])
p("C15","Formatting and spelling never change the verdict",
  "The list of validation errors of a query is the same for every spacing and keyword case of it, and the same again for its formatted text.",
  ["inputs"],DIAL,"No test validates a formatted query or compares spellings.",
  [VAL,LEX,SQL,TOK],[("one parser shared by formatting and validation","grammar/lexer.py")],observe=["sqlvalidator.parse(...).errors","sqlvalidator.format_sql"])
p("C16","A query object answers the same whatever was called before",
  "For every query text, valid, invalid or unparsable, is_valid(), errors and format() of a query object give the same answers in every order and however often they are called, two query objects never influence each other, and is_valid() is true exactly when errors is empty after it. "
  "Text that cannot be parsed as a SELECT (it cannot be formatted, or has brackets that do not close) is never reported valid, by the first call or any later one. What errors holds before the first is_valid() is not promised.",
  ["histories","inputs"],"every finite sequence of calls on one or several query objects, over every class of text","Every test makes one call on a fresh object.",
  [VAL],[("lazy parse and the validated flag","sql_validator.py: SQLQuery")],state=[("SQLQuery.validated/errors/_sql_query","memoised parse and verdict","sql_validator.py")],observe=["sqlvalidator.parse(...)"])

p("C17","Only SELECT string literals change in a rewritten file",
  "When --format rewrites a Python file, every byte outside the rewritten SELECT string literals is unchanged: other strings, comments, indentation, tabs, blank lines, trailing spaces, line continuations, line endings and the end of the file. "
  "A file in which no SQL changes is not written at all.",
  ["inputs","programs"],"every Python file: any mixture and order of SELECT literals, other strings, comments, code and whitespace","Tests run six one-line files through an internal function.",
  [FH],[("token stream rebuilt into file content","file_handler.py: compute_file_content"),("write only if something changed","file_handler.py: analyse_file")],observe=["file contents after sqlvalidator --format"])
p("C18","A rewritten literal denotes the formatted SQL",
  "Each SELECT literal that --format rewrites keeps its prefix and, evaluated by Python, is the formatted form of the SQL it held before, alone or with one line break before and after it; the file still parses and no other constant of the program changes. "
  "A literal that would have to change its meaning is not changed, including parts of an implicit concatenation. A SELECT literal is one whose source text, behind its prefix and quotes, starts with SELECT and white space.",
  ["inputs","programs"],"every literal: prefix, quote style, content with quotes at its ends, escapes, one or several lines, adjacent literals","Tests use two quote styles and one prefix and never evaluate the result.",
  [FH],[("quote and prefix detection, promotion to triple quotes","file_handler.py: handle_sql_string"),("SELECT detection","file_handler.py: is_select_string")],observe=["ast of the file before and after sqlvalidator --format"])
p("C19","Opt-out comments protect exactly the string they belong to",
  "A SELECT string is exempt from formatting exactly when the first comment after it, with no other string in between, contains 'nosqlformat', and exempt from validation exactly when that comment contains 'nosqlvalidation'; every other SELECT string of the file is processed, whatever comments surround it.",
  ["inputs","programs"],"every sequence of SELECT strings, other strings, comments and code in a file, in every mode","Tests cover five arrangements with at most two strings.",
  [FH],[("look-ahead to the next comment or string","file_handler.py: compute_file_content.handle_string_token")],observe=["sqlvalidator --format / --check-format / --validate"])
p("C20","Checking and validating never write, and check predicts format",
  "--check-format, --validate and --verbose-validate never create, modify or delete a file. For any inputs, --check-format names exactly the files that --format would rewrite, with the same SQL counts and totals, and exits 1 exactly when --format would rewrite something (or --validate, given with it, finds something invalid) and 0 otherwise. "
  "Combinations of options that exclude each other are refused with exit status 2 and change nothing.",
  ["inputs","configurations","histories"],"every set of files and directories and every combination of mode flags","No test runs the command line or touches the file system.",
  [FH,MAIN],[("write guarded by the format flag","file_handler.py: analyse_file"),("exit status","file_handler.py: handle_inputs")],observe=["directory snapshot, stdout and exit status of the command line"])
p("C21","Formatting files converges in one run",
  "After sqlvalidator --format has run, running it again over the same inputs changes nothing and reports nothing, and --check-format exits 0, for every set of files whatever mixture of SQL, comments and code they hold; edits made in between to one file only affect that file.",
  ["histories","inputs"],"every history of format, check, validate and edit steps over a set of files","No test runs two steps.",
  [FH,SQL],[("formatted text compared with the literal","file_handler.py: compute_file_content")],observe=["command line runs in sequence"])
p("C22","Counts, line numbers, summaries and exit status are exact",
  "Every run reports, per file and in total, exactly the number of SQL strings changed (or that would be changed) and found invalid and the number of files containing them, and --verbose-validate lists each invalid string with the line on which it starts and its errors; files without findings are not mentioned. "
  "The exit status is 1 exactly when --check-format found something to change or --validate found something invalid.",
  ["inputs","configurations"],"every set of files, findings and flag combinations","No test observes output or exit status.",
  [FH,MAIN],[("InputSQLAnalyseInfo accumulation","file_handler.py"),("print_format_summary, print_validation_summary","file_handler.py")],
  state=[("InputSQLAnalyseInfo","running totals and set of files seen","file_handler.py")],observe=["stdout and exit status"])
p("C23","Every Python file under the inputs is processed exactly once",
  "Given any list of files and directories, a run processes each named file and each .py file below the directories at any depth exactly once, even if inputs repeat, overlap or name the same file by another spelling or a symbolic link, and processes no other file; inputs that do not exist are reported and do not stop the run.",
  ["inputs","configurations"],"every directory tree and every list of overlapping inputs","No test walks a directory.",
  [FH],[("seen_files threaded through the run","file_handler.py: analyse_file, analyse_dir, handle_inputs"),("os.walk and the .py filter","file_handler.py: analyse_dir")],observe=["stdout and file contents"])
p("C24","A file that cannot be analysed is reported, untouched and contained",
  "If a file cannot be analysed (it is not decodable, cannot be tokenised as Python, holds SQL that cannot be parsed, is a dangling link, or its new text cannot be encoded), the run says so naming the file, leaves that file byte-for-byte as it was, and processes all other files, counts and exit status as if that file were not among the inputs.",
  ["inputs","fault_sequences"],"every position and kind of failing file among the inputs","No test has a failing file.",
  [FH],[("per-file exception handling","file_handler.py: handle_one_input, analyse_dir"),("write only after the whole file was computed","file_handler.py: analyse_file")],observe=["stdout, exit status and file contents"])
with open(os.path.join(HERE,"..","properties.jsonl"),"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["title"]
        f.write(json.dumps(x)+"\n")
print(len(P))
