SQL="sqlvalidator/grammar/sql.py"; LEX="sqlvalidator/grammar/lexer.py"; TOK="sqlvalidator/grammar/tokeniser.py"
FH="sqlvalidator/file_handler.py"; VAL="sqlvalidator/sql_validator.py"
def seed(i, prop, needs, breaks, demo, *edits):
    seeds[i]=dict(property=prop,needs=needs,what_it_breaks=breaks,demo=demo,edits=[dict(file=f,old=o,new=n) for f,o,n in edits])
FMT='''import sqlvalidator
def fmt(q):
    return sqlvalidator.format_sql(q)
def errs(q):
    p = sqlvalidator.parse(q)
    p.is_valid()
    return p.errors
'''
CLI='''import contextlib, io, os, sys, tempfile
from sqlvalidator import main
def run(*args):
    out = io.StringIO()
    sys.argv = ["sqlvalidator", *args]
    code = 0
    with contextlib.redirect_stdout(out):
        try:
            main._main()
        except SystemExit as e:
            code = e.code
    return code, out.getvalue()
root = tempfile.mkdtemp(prefix="demo-")
def write(name, content):
    path = os.path.join(root, name)
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "wb") as f:
        f.write(content)
    return path
def read(path):
    with open(path, "rb") as f:
        return f.read()
import atexit, shutil
atexit.register(shutil.rmtree, root)
'''
# ---- C01
seed("offset-alias-as","C01","UNNEST ... WITH OFFSET AS alias inside a join or with an aliased UNNEST",
 "the AS before the alias of WITH OFFSET is lost when the UNNEST itself has no alias",
 FMT+'''out = fmt("select a from unnest(b) with offset as pos")
assert "WITH OFFSET AS pos" in out, out
''',(SQL,'''                if self.with_offset_as:
                    unnest_str += " AS"
''','''                if self.with_offset_as and isinstance(self.value, Alias):
                    unnest_str += " AS"
'''))
# ---- C02
# ---- C03
seed("each-mixed-case","C03","JOIN EACH or GROUP EACH BY written in mixed case",
 "GROUP EACH BY is only recognised in lower or upper case",
 FMT+'''assert fmt("select a from t group Each by b") == fmt("select a from t group each by b")
''',(LEX,'''            if lower(next_token) == "each":
                group_each_by = True
''','''            if next_token in ("each", "EACH"):
                group_each_by = True
'''))
seed("filter-where-case","C03","FILTER written in mixed case",
 "an aggregate FILTER is only understood when it is written in lower or upper case",
 FMT+'''assert fmt("select sum(a) Filter (where b) from t") == fmt("select sum(a) filter (where b) from t")
''',(LEX,'''                if next_token and lower(next_token) == "filter":
''','''                if next_token in ("filter", "FILTER"):
'''))
# ---- C04
seed("string-prefix-lower","C04","a literal with an upper-case prefix, R'...'",
 "the prefix of a raw string literal changes",
 FMT+'''assert "R'\\\\d'" in fmt("select R'\\\\d' from t"), fmt("select R'\\\\d' from t")
''',(LEX,'''                expression = StringParser.parse(
                    tokens, start_quote=next_token, prefix=main_token
                )
''','''                expression = StringParser.parse(
                    tokens, start_quote=next_token, prefix=lower(main_token)
                )
'''))
# ---- C05
# ---- C06
seed("limit-counts-indent","C06","an AND/OR condition whose text is exactly 88 characters long",
 "a condition of exactly 88 characters is kept on one line",
 FMT+'''a = "a" * 41
b = "b" * 42
assert len(a + " AND " + b) == 88
assert fmt("select c from t where %s and %s" % (a, b)) == "SELECT c\\nFROM t\\nWHERE\\n %s\\n AND %s" % (a, b)
''',(SQL,'''DEFAULT_LINE_LENGTH = 88
''','''DEFAULT_LINE_LENGTH = 89
'''))
seed("call-limit-with-name","C06","a call whose argument list has between 80 and 88 characters",
 "the length of the function name counts towards the limit at which its arguments are broken",
 FMT+'''a, b = "a" * 40, "b" * 44
assert "\\n " not in fmt("select foo(%s, %s) from t" % (a, b))
''',(SQL,'''            or len(", ".join(transformed_args)) > DEFAULT_LINE_LENGTH
''','''            or len(self.function_name + ", ".join(transformed_args)) > DEFAULT_LINE_LENGTH
'''))
# ---- C07
seed("date-part-case","C07","EXTRACT with a lower-case part",
 "the part in EXTRACT keeps the case it is written in",
 FMT+'''out = fmt("select extract(day_hour from a) from t")
assert "DAY_HOUR FROM a" in out, out
''',(SQL,'''        return "{} FROM {}".format(self.part.upper(), transform(self.value))
''','''        part = self.part if "_" in self.part else self.part.upper()
        return "{} FROM {}".format(part, transform(self.value))
'''))
# ---- C08
seed("set-op-order","C08","a set operation in FROM over subqueries with different column names",
 "a star subquery joined to a subquery counts as providing nothing",
 FMT+'''q = "select b from (select a from t) x cross join (select * from u)"
assert errs(q) == [], errs(q)
''',(SQL,'''        else:
            known_fields |= self.right_from.known_fields

''','''        else:
            known_fields |= {f for f in self.right_from.known_fields if f.name != "*"}

'''))
# ---- C09
seed("filter-condition","C09","a missing column in the FILTER condition of an aggregate with OVER, or in PARTITION BY after the first expression",
 "only the first PARTITION BY expression is checked",
 FMT+'''q = "select sum(a) over (partition by a, missing) from (select a from t)"
assert errs(q) == ["The column missing was not found"], errs(q)
''',(SQL,'''            for partition in self.partition_by:
                errors += partition.validate(known_fields)
''','''            for partition in self.partition_by[:1]:
                errors += partition.validate(known_fields)
'''))
# ---- C10
seed("alias-hides","C10","an aliased subquery inside a bracketed source",
 "the columns of a join inside brackets lose their alias check",
 FMT+'''q = "select x.b from ((select a from t) x join (select b from u) y on x.a = y.b)"
assert errs(q) == ["The column b was not found in alias x"], errs(q)
''',(SQL,'''        if hasattr(self.args[0], "known_fields"):
            return self.args[0].known_fields
        return set()
''','''        if isinstance(self.args[0], Join):
            return {_FieldInfo("*", type=object)}
        if hasattr(self.args[0], "known_fields"):
            return self.args[0].known_fields
        return set()
'''))
# ---- C11
seed("order-position-brackets","C11","an ORDER BY position in several brackets",
 "a position in more than one pair of brackets is not checked",
 FMT+'''q = "select a from t order by a, ((7))"
assert errs(q) == ["ORDER BY position 7 is not in select list"], errs(q)
''',(SQL,'''        value = self.value
        while isinstance(value, Parenthesis):
            value = value.value

        if isinstance(value, Integer)''','''        value = self.value
        if isinstance(value, Parenthesis):
            value = value.args[0]

        if isinstance(value, Integer)'''))
# ---- C12
seed("offset-zero","C12","OFFSET with a negative number in brackets",
 "a negative OFFSET inside brackets is accepted",
 FMT+'''q = "select a from t limit 5 offset (-1)"
assert errs(q) == ["OFFSET must not be negative"], errs(q)
''',(SQL,'''            if isinstance(value, Integer) and value.value < 0:
                errors.append("OFFSET must not be negative")
''','''            if isinstance(self.value, Integer) and value.value < 0:
                errors.append("OFFSET must not be negative")
'''))
# ---- C13
seed("having-type-nested","C13","HAVING over an arithmetic expression with a float operand",
 "the type of HAVING conditions that are arithmetic on floats is not reported",
 FMT+'''q = "select a from t group by a having 1 + 2.5"
assert errs(q) == ["The argument of HAVING must be type boolean, not type float"], errs(q)
''',(SQL,'''        errors += self.value.validate(known_fields)
        value_type = self.value.resolve_return_type(known_fields)
        if value_type not in (bool, object):
            errors.append(
                "The argument of HAVING''','''        errors += self.value.validate(known_fields)
        value_type = self.value.resolve_return_type(known_fields)
        if value_type not in (bool, object, float):
            errors.append(
                "The argument of HAVING'''))
# ---- C14
seed("join-in-subquery","C14","LEFT OUTER JOIN without condition",
 "joins whose type ends in OUTER JOIN are taken for cross joins",
 FMT+'''q = "select a from t left outer join u"
assert errs(q) == ["Missing ON or USING for join"], errs(q)
''',(SQL,'''        if self.join_type not in ("CROSS JOIN", ",") and not (self.using or self.on):
''','''        if self.join_type in ("JOIN", "INNER JOIN", "LEFT JOIN", "RIGHT JOIN", "FULL JOIN", "FULL OUTER JOIN") and not (
            self.using or self.on
        ):
'''))
# ---- C15
# ---- C16
seed("unparsable-second-call","C16","is_valid() of an unparsable query called after format() failed",
 "a query whose parsing failed in format() counts as validated and hence as valid",
 FMT+'''p = sqlvalidator.parse("select a from t where (")
try:
    p.format()
except Exception:
    pass
assert not p.is_valid(), p.errors
''',(VAL,'''        if self._sql_query is None:
            self._sql_query = SQLStatementParser.parse(to_tokens(self.sql))
        return self._sql_query
''','''        if self._sql_query is None:
            was_validated, self.validated = self.validated, True
            self._sql_query = SQLStatementParser.parse(to_tokens(self.sql))
            self.validated = was_validated
        return self._sql_query
'''))
# ---- C17
seed("universal-newlines","C17","a file with Windows line ends that holds a SELECT to reformat",
 "line ends outside of the reformatted strings are changed",
 CLI+'''p = write("m.py", b"x = 1\\r\\nq = 'select a from t'\\r\\ny = 2\\r\\n")
run("--format", p)
got = read(p)
assert got.startswith(b"x = 1\\r\\n") and got.endswith(b"\\r\\ny = 2\\r\\n"), got
''',(FH,'''    with open(filename, "r", encoding=encoding, newline="") as file:
''','''    with open(filename, "r", encoding=encoding) as file:
''')) if True else None
# ---- C18
seed("prefix-lost","C18","a SELECT string with a two-letter prefix such as Rb",
 "a string with a mixed-case prefix loses its prefix",
 CLI+'''p = write("m.py", b"q = u'select a from t'\\nr = Rb'select a'\\n")
run("--format", p)
import ast
tree = ast.parse(read(p))
assert isinstance(tree.body[1].value.value, bytes), read(p)
''',(FH,'''                    quotes_prefix = prefix
''','''                    quotes_prefix = prefix if len(prefix) == 1 else prefix[:-1]
'''))
# ---- C22
seed("plural-files","C22","exactly one invalid query in each of two files",
 "the number of invalid files is that of the invalid queries",
 CLI+'''write("a.py", b"q = 'select a from t limit -1'\\nr = 'select a from t limit -1'\\n")
code, out = run("--validate", root)
assert out.endswith("1 file detected with invalid SQL (2 invalid SQL queries).\\n"), out
''',(FH,'''        self.num_invalid_files += other_sql_analyse_info.num_invalid_files
''','''        self.num_invalid_files += other_sql_analyse_info.num_invalid_sql
'''))
# ---- C23
seed("seen-files-spelling","C23","a file given twice by relative paths",
 "the same file is processed once per spelling of its path",
 CLI+'''a = write("d/a.py", b"q = 'select a from t'\\n")
os.chdir(root)
code, out = run("--check-format", "d/a.py", "d/../d/a.py")
os.chdir("/")
assert out.count("would reformat ") == 1, out
''',(FH,'''    seen_files.add(abs_filename)
''','''    seen_files.add(filename)
'''))
# ---- C24

seed("quote-in-literal","C04","a literal that holds exactly one quote character of another kind",
 "a literal that consists of one other quote character is cut",
 FMT+"""out = fmt("select foo('\\"', a) from t")
assert "FOO('\\"', a)" in out, out
""",(LEX,"""        if string_content == start_quote:
            end_quote""","""        if string_content in String.QUOTES:
            end_quote"""))
seed("window-order-after-partition","C09","a missing column in the ORDER BY of a window that also has PARTITION BY",
 "the ORDER BY of a window is not checked if there is a PARTITION BY",
 FMT+"""q = "select sum(a) over (partition by a order by missing) from (select a from t)"
assert errs(q) == ["The column missing was not found"], errs(q)
""",(SQL,"""        if self.order_by:
            errors += self.order_by.validate(known_fields, None)
        return errors


class WindowFrameClause""","""        elif self.order_by:
            errors += self.order_by.validate(known_fields, None)
        return errors


class WindowFrameClause"""))
seed("bracketed-left-table","C05","a table in brackets on the left of a join",
 "a table in brackets in front of a join is not indented",
 FMT+"""out = fmt("select a from ((t) join u on b)")
assert out == "SELECT a\\nFROM (\\n (\\n  t\\n )\\n JOIN u\\n ON b\\n)", out
out = fmt("select a from (t) join u on b")
assert out == "SELECT a\\nFROM (\\n t\\n)\\nJOIN u\\nON b", out
""",(SQL,"""            if not isinstance(left_from, SelectStatement):
                left_element""","""            if isinstance(left_from, Join):
                left_element"""))
seed("rollup-list","C01","GROUP BY ROLLUP with several items",
 "ROLLUP is lost if several items follow it",
 FMT+"""out = fmt("select a from t group by rollup (a), (b)")
assert "ROLLUP" in out, out
""",(SQL,"""        else:
            group_by_str = " " + transform(self.args[0])
        if self.rollup:
            group""","""        else:
            group_by_str = " " + transform(self.args[0])
        if self.rollup and len(self.args) == 1:
            group"""))
seed("count-by-case","C02","COUNT with arguments of more than 88 characters",
 "COUNT is only recognised in lower case, so that its formatted call is laid out differently",
 FMT+"""once = fmt("select count(distinct %s, %s) from t" % ("a" * 50, "b" * 50))
assert fmt(once) == once, fmt(once)
""",(LEX,"""                elif lower(main_token) == "count":
""","""                elif main_token == "count":
"""))
seed("null-by-case","C15","NULL written as Null",
 "Null in mixed case is taken for a column",
 FMT+"""q = "select a from (select a from t) where a is %s"
assert errs(q % "Null") == errs(q % "null"), errs(q % "Null")
""",(LEX,"""        elif lower(main_token) in Null.VALUES:
""","""        elif main_token in ("null", "NULL"):
"""))
seed("limit-arithmetic","C12","LIMIT with an arithmetic expression of integers",
 "LIMIT accepts expressions that are not literals",
 FMT+"""q = "select a from t limit 1 + 2"
assert errs(q) == ["argument of LIMIT must not contain variables"], errs(q)
""",(SQL,"""        if value.return_type != int or not isinstance(value, Integer):
            errors.append("argument of LIMIT""","""        if value.return_type != int:
            errors.append("argument of LIMIT"""))
seed("shared-parse-cache","C16","two query objects whose texts differ in letter case only",
 "a query object answers with the parse of another one",
 FMT+"""a = sqlvalidator.parse("select a from (select Abc from t)")
b = sqlvalidator.parse("select A from (select ABC from t)")
a.is_valid(), b.is_valid()
assert b.errors == ["The column A was not found"], b.errors
assert b.format() == "SELECT A\\nFROM (\\n SELECT ABC\\n FROM t\\n)", b.format()
""",(VAL,"""    @property
    def sql_query(self):
        if self._sql_query is None:
            self._sql_query = SQLStatementParser.parse(to_tokens(self.sql))
        return self._sql_query
""","""    _parsed: dict = {}

    @property
    def sql_query(self):
        key = " ".join(self.sql.lower().split())
        if key not in self._parsed:
            self._parsed[key] = SQLStatementParser.parse(to_tokens(self.sql))
        return self._parsed[key]
"""))
seed("optout-prefix","C19","a string that is marked with nosqlvalidation only",
 "nosqlvalidation also exempts a string from formatting",
 CLI+"""p = write("m.py", b"q = 'select a from t'  # nosqlvalidation\\n")
code, out = run("--check-format", p)
assert code == 1, out
""",(FH,"""NO_SQLFORMAT_COMMENT = "nosqlformat"
""","""NO_SQLFORMAT_COMMENT = "nosql"
"""))
seed("combined-exit","C20","--check-format together with --validate, and only the format is wrong",
 "the exit status of --check-format is lost when --validate is also given",
 CLI+"""p = write("m.py", b"q = 'select a from t'\\n")
code, out = run("--check-format", "--validate", p)
assert code == 1, (code, out)
""",(FH,"""    if (check_input_format and inputs_info.num_changed_sql > 0) or (
        validate_input and inputs_info.num_invalid_sql > 0
    ):
        sys.exit(1)
""","""    num_findings = (
        inputs_info.num_invalid_sql if validate_input else inputs_info.num_changed_sql
    )
    if (check_input_format or validate_input) and num_findings > 0:
        sys.exit(1)
"""))
seed("hidden-python-file","C23","a Python file whose name is just its suffix, or another edge of the name",
 "a file named .py below a directory is skipped",
 CLI+"""write("d/.py", b"q = 'select a from t'\\n")
code, out = run("--check-format", os.path.join(root, "d"))
assert out.count("would reformat") == 1, out
""",(FH,"""            if filename.endswith(".py"):
""","""            if os.path.splitext(filename)[1] == ".py":
"""))
seed("narrow-except","C24","a named file with a SELECT that ends too early, followed by another file",
 "a query that ends in the middle of an expression stops the run",
 CLI+"""a = write("a.py", b"q = 'select a from t where '\\n")
b = write("b.py", b"q = 'select a from t'\\n")
code, out = run("--check-format", a, b)
assert "would reformat " + b in out and a in out, out
""",(FH,"""        except Exception as e:
            print("error analysing {} ({}: {})".format(src_input""","""        except (ValueError, AssertionError, SyntaxError, tokenize.TokenError) as e:
            print("error analysing {} ({}: {})".format(src_input"""))
seed("dir-error-stops","C24","a directory with a file that cannot be analysed because a query is nested too deeply, and files after it",
 "a deeply nested query ends the analysis of its directory",
 CLI+"""for x in "abcd":
    write("d/%s/m.py" % x, b"q = 'select " + b"(" * 3000 + b"1" + b")" * 3000 + b" from t'\\n")
    for i in range(10):
        write("d/%s/y%d.py" % (x, i), b"q = 'select a from t'\\n")
code, out = run("--check-format", os.path.join(root, "d"))
assert out.count("would reformat ") == 40, out
""",(FH,"""                except RecursionError:
                    print("could not analyse {}".format(abs_filename))
""","""                except RecursionError:
                    print("could not analyse {}".format(abs_filename))
                    break
"""))
