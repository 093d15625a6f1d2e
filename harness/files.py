"""C16-C24, files: every Python file (and every history of runs over a directory of files) the specification reaches is
written to a scratch directory, the command line is run on it, and what it prints, returns and leaves behind is compared
with what the specification says."""
import ast
import contextlib
import io
import json
import os
import re
import shutil
import sys
import tempfile

import common
import formatting
import render  # noqa: F401
import tlc
from common import SEED, SPEC

DEEP = 700
SIGNS = {"~": "\n", "^": "\r", "!": "\t", "@": "\u00e9", "&": "\u20ac", "?": "\f", "`": "\U0001d465", "$": "not " * DEEP}
BACK = {v: k for k, v in SIGNS.items() if len(v) == 1}


def decode(text):
    return "".join(SIGNS.get(c, c) for c in text)


def encode(text):
    text = text.replace(SIGNS["$"], "$")
    return "".join(BACK.get(c, c) for c in text)


def sql_table(path):
    """what the code's own formatter and validator say about the SQL texts of the specification"""
    import sqlvalidator

    table = []
    with open(os.path.join(SPEC, "sqls.json")) as f:
        values = json.load(f)
    for v in values:
        text = decode(v)
        entry = {"v": v, "f": "", "s": "ok", "e": 0}
        try:
            entry["f"] = encode(sqlvalidator.format_sql(text))
        except RecursionError:
            entry["s"] = "deep"
        except Exception:  # noqa
            entry["s"] = "fails"
        errors = []
        if entry["s"] == "ok":
            query = sqlvalidator.parse(text)
            query.is_valid()
            errors = [str(e) for e in query.errors]
            entry["e"] = len(errors)
        table.append((entry, errors))
    with open(path, "w") as f:
        json.dump([e for e, _ in table], f)
    return [e for e, _ in table], [m for _, m in table]


# ------------------------------------------------------------------------------------------------- running
def run_cli(args, limit=60):
    """(exit status, lines of stdout) of one run in this process"""
    from sqlvalidator import main

    out, err = io.StringIO(), io.StringIO()
    old = sys.argv
    sys.argv = ["sqlvalidator"] + list(args)
    code = 0
    try:
        with contextlib.redirect_stdout(out), contextlib.redirect_stderr(err):
            try:
                main._main()
            except SystemExit as e:
                code = 0 if e.code is None else e.code
            except formatting.TooLong:
                raise
            except Exception as e:  # noqa
                code = "raised %s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        sys.argv = old
    return code, out.getvalue().split("\n")[:-1]


EPOCH = 1_000_000_000


def put(path, data):
    with open(path, "wb") as f:
        f.write(data)
    os.utime(path, (EPOCH, EPOCH))


def was_written(path):
    return os.stat(path).st_mtime_ns != EPOCH * 10 ** 9


def get(path):
    with open(path, "rb") as f:
        return f.read()


CODEC = {"utf-8": "utf-8", "sig": "utf-8-sig", "latin-1": "latin-1"}


def texts(fact):
    """the pieces of the file before and after formatting, as text"""
    before = [(c, decode(s)) for c, s in fact["p"]]
    after = [(c, decode(s)) for c, s in fact["g"]]
    eol = fact.get("eol", "lf")
    if eol == "crlf":
        before = [(c, s.replace("\n", "\r\n")) for c, s in before]
        after = [(c, s.replace("\n", "\r\n")) for c, s in after]
    elif eol == "mixed":
        changed = [b != a for b, a in zip(before, after)]
        plain = list(before)
        before = [(c, s.replace("\n", "\r\n")) if c in ("end", "gap") else (c, s) for c, s in plain]
        crlf = any("\r\n" in s for _, s in before)
        after = [(c, s.replace("\n", "\r\n") if crlf else s) if ch else b
                 for ch, (c, s), b in zip(changed, after, before)]
    return before, after


def to_bytes(pieces, enc):
    return "".join(s for _, s in pieces).encode(CODEC[enc])


def summary_format(files, count, check):
    words = "would be reformatted" if check else "reformatted"
    if count:
        return "%d file%s %s (%d changed SQL queries)." % (files, "s" if files > 1 else "", words, count)
    return "No file %s." % words


def summary_validate(files, count):
    if count:
        return "%d file%s detected with invalid SQL (%d invalid SQL quer%s)." % (
            files, "s" if files > 1 else "", count, "ies" if count > 1 else "y")
    return "No invalid queries found."


def block(name, mode, changed, invalid, failure):
    """the lines a run prints about one file; a line that ends in * is a beginning.  invalid: [(line, errors)]"""
    f, v = mode
    if failure:
        return ["could not analyse %s" % name] if failure == "deep" else ["error analysing %s (*" % name]
    lines = []
    if f and changed:
        lines.append("%s %s (%d changed SQL)" % ("reformatted" if f == "format" else "would reformat", name, changed))
    if v and invalid:
        lines.append("invalid queries in %s (%d invalid SQL)" % (name, len(invalid)))
        if v == "verbose":
            lines += ["L%d - %s" % (line, ", ".join(errors)) for line, errors in invalid]
    return lines


def options(mode):
    f, v = mode
    return ([{"format": "--format", "check": "--check-format"}[f]] if f else []) + (
        [{"validate": "--validate", "verbose": "--verbose-validate"}[v]] if v else [])


def same_lines(expected, got):
    return len(expected) == len(got) and all(
        g.startswith(e[:-1]) if e.endswith("*") else g == e for e, g in zip(expected, got))


def exit_status(mode, changed, invalid):
    return 1 if (mode[0] == "check" and changed) or (mode[1] == "validate" and invalid) else 0


# ------------------------------------------------------------------------------------------------- one file
def literal_value(source):
    value = ast.literal_eval(source)
    return value.decode("latin-1") if isinstance(value, bytes) else value


LITERAL = "[a-zA-Z]{0,3}(?:%s)" % "|".join(
    r"%s(?:\\(?:\r\n|.)|(?!%s)[^\\%s])*%s" % (q, q, "" if len(q) == 3 else "\\n", q) for q in ("'''", '"""', "'", '"'))


def split_by(pieces, content):
    """the text of each literal, if everything outside the literals is as in pieces; else None"""
    for literal in (LITERAL, ".*?"):
        pattern = "".join("(%s)" % literal if c == "lit" else re.escape(s) for c, s in pieces)
        found = re.fullmatch(pattern, content, re.DOTALL)
        if found:
            return list(found.groups())
    return None


def constants(text):
    """the program with its SELECT literals blanked out by position in the tree: other constants and structure"""
    try:
        tree = ast.parse(text)
    except SyntaxError:
        return None
    return tree


def masked(tree):
    class Mask(ast.NodeTransformer):
        def visit_Constant(self, node):
            value = node.value
            if isinstance(value, bytes):
                value = value.decode("latin-1")
            if isinstance(value, str) and re.match(r"\s*select\s", value, re.IGNORECASE):
                return ast.Constant(value="<select>")
            return node

    return ast.dump(Mask().visit(tree))


MODES = [(f, v) for f in (None, "check", "format") for v in (None, "validate", "verbose") if f or v]


def judge_file(prop, fact, table, messages):
    before, after = texts(fact)
    enc = fact["enc"]
    data = to_bytes(before, enc)
    bad = []
    runs = 0
    path = "m.py"
    shown = data.decode(CODEC[enc])
    if len(shown) > 900:
        shown = shown.replace(SIGNS["$"], "not not .. ")

    def report(what, **more):
        bad.append(dict(key=shown, what=what, encoding=enc, eol=fact["eol"], **more))

    failure = {(True, False): fact["ff"], (False, True): fact["fv"], (True, True): fact["fb"]}
    invalid = [(line, messages[v - 1]) for line, v in fact["loc"]]

    def run(mode, again=False):
        nonlocal runs
        runs += 1
        if not again:
            put(path, data)
        else:
            os.utime(path, (EPOCH, EPOCH))
        ok, got = formatting.call(run_cli, options(mode) + [path])
        return got if ok else ("raised " + got, [])

    def fails(mode):
        return failure[(bool(mode[0]), bool(mode[1]))]

    def should_change(mode):
        return mode[0] == "format" and not fails(mode) and fact["ch"] > 0

    if prop in ("C17", "C18"):
        for mode in (("format", None), ("format", "verbose")):
            run(mode)
            result = get(path)
            if prop == "C17":
                if was_written(path) and not should_change(mode) and result == data:
                    report("the file is written although nothing changes", mode=mode)
                try:
                    content = result.decode(CODEC[enc])
                except UnicodeDecodeError as e:
                    report("the file is no longer in its encoding", error=str(e))
                    continue
                if enc == "sig" and not result.startswith(b"\xef\xbb\xbf"):
                    report("the byte order mark is lost")
                if split_by(before, content) is None:
                    report("something outside the SELECT literals changes", mode=mode, file_after=content[:3000])
                continue
            content = result.decode(CODEC[enc], "replace")
            literals = split_by(before, content)
            if literals is None:
                continue    # C17's
            old = [s for c, s in before if c == "lit"]
            new = [s for c, s in after if c == "lit"] if should_change(mode) else old
            which = [v for v in fact["lits"] if v]
            parts = [x + 1 in fact["part"] for x, v in enumerate(fact["lits"]) if v]
            for o, e, g, v, part in zip(old, new, literals, which, parts):
                if g == o:
                    if e != o and not fails(mode):
                        report("a SELECT literal is not formatted", literal=o, expected=e)
                    continue
                if part:
                    report("a part of a string made of several literals is changed", literal=o, found=g)
                    continue
                f = decode(table[v - 1]["f"])
                try:
                    value = literal_value(g.replace("\r\n", "\n"))
                except (SyntaxError, ValueError) as error:
                    report("the rewritten literal is no literal", literal=o, found=g, error=str(error))
                    continue
                prefix = re.match("[a-zA-Z]*", o).group()
                if re.match("[a-zA-Z]*", g).group() != prefix:
                    report("the prefix of the literal changes", literal=o, found=g)
                elif value not in (f, "\n" + f + "\n"):
                    report("the rewritten literal is not the formatted SQL", literal=o, found=g, expected=f)
                elif e == o:
                    report("a literal changes that cannot hold the formatted SQL or is exempt", literal=o, found=g)
            one = constants(data.decode(CODEC[enc]))
            if one is not None:
                two = constants(content)
                if two is None:
                    report("the file is no Python any more", mode=mode, file_after=content[:3000])
                elif masked(one) != masked(two):
                    report("another constant of the program changes", mode=mode, file_after=content[:3000])
    elif prop == "C19":
        # which strings are formatted, which are validated
        run(("format", None))
        content = get(path).decode(CODEC[enc], "replace")
        literals = split_by(before, content)
        old = [s for c, s in before if c == "lit"]
        if literals is not None and not fails(("format", None)):
            expected = [a != b for (c, a), (_, b) in zip(before, after) if c == "lit"]
            got = [a != b for a, b in zip(old, literals)]
            if expected != got:
                report("the strings that are formatted are others", literals=old, expected=expected, observed=got)
        for mode in ((None, "verbose"), ("check", "verbose")):
            if fails(mode):
                continue
            code, lines = run(mode)
            got = [int(m.group(1)) for m in (re.match(r"L(\d+) - ", x) for x in lines) if m]
            if got != [line for line, _ in invalid]:
                report("the strings that are validated are others", mode=mode, expected=[x for x, _ in invalid], observed=lines)
    elif prop == "C20":
        for v in (None, "validate", "verbose"):
            seen = {}
            for f in ("check", "format", None):
                if not f and not v:
                    continue
                code, lines = run((f, v))
                if f != "format" and (was_written(path) or get(path) != data):
                    report("a run that only looks changes the file", mode=(f, v))
                words = "would reformat " if f == "check" else "reformatted "
                named = [x[len(words):] for x in lines if x.startswith(words)]
                seen[f] = (named, code, was_written(path))
            if seen["check"][0] != seen["format"][0] or bool(seen["check"][0]) != seen["format"][2]:
                report("--check-format does not say what --format does", mode=v, check=seen["check"], format=seen["format"])
            if seen["check"][1] != 1 if seen["format"][2] else seen["check"][1] and v != "validate":
                report("the exit status of --check-format is not what --format does", check=seen["check"], format=seen["format"])
    elif prop == "C21":
        run(("format", None))
        first = get(path)
        code, lines = run(("format", None), again=True)
        if get(path) != first or was_written(path) or any(x.startswith("reformatted") for x in lines):
            report("formatting again changes the file", once=first.decode(CODEC[enc], "replace")[:2000],
                   twice=get(path).decode(CODEC[enc], "replace")[:2000], printed=lines)
        code, lines = run(("check", None), again=True)
        if code != 0 or any(x.startswith("would") for x in lines):
            report("--check-format is not content after --format", printed=lines, exit=code)
    elif prop in ("C22", "C24"):
        for mode in MODES:
            failing = fails(mode)
            if prop == "C24" and not failing:
                continue
            if prop == "C22" and failing:
                continue
            code, lines = run(mode)
            expected = block(path, mode, fact["ch"], invalid, failing)
            count = 0 if failing else fact["ch"]
            wrong = 0 if failing else len(invalid)
            if mode[0]:
                expected.append(summary_format(1, count, mode[0] == "check"))
            if mode[1] == "validate":
                expected.append(summary_validate(1, wrong))
            status = exit_status(mode, count, wrong)
            if code != status or not same_lines(expected, lines):
                report("the report or exit status is wrong", mode=mode, expected=expected, observed=lines, exit=code,
                       expected_exit=status)
            if failing and (get(path) != data or was_written(path)):
                report("a file that cannot be analysed is changed", mode=mode)
    return bad, runs


_files = {}


def init_files(table, messages):
    _files.update(table=table, messages=messages, dir=None)


def judge(prop, fact, fmt, validate):
    if _files.get("pid") != os.getpid():
        _files["pid"] = os.getpid()
        _files["dir"] = tempfile.mkdtemp(prefix="files-", dir=_files["root"])
        os.chdir(_files["dir"])
    if "w" in fact:
        import history

        return history.judge(prop, fact, _files["dir"], _files["messages"])
    os.chdir(_files["dir"])
    return judge_file(prop, fact, _files["table"], _files["messages"])


def files_run(rich, statements, encodings=("utf-8",), eols=("lf",), workers=3, simulate=None, seed=None):
    constants = {"MaxStatements": statements, "Rich": '"%s"' % rich,
                 "Encodings": "{%s}" % ", ".join('"%s"' % e for e in encodings),
                 "Eols": "{%s}" % ", ".join('"%s"' % e for e in eols)}
    return tlc.Run("Files", constants, ["Sound", "Report"], spec="SpecSome" if simulate else "Spec", workers=workers,
                   simulate=simulate, depth=statements + 1 if simulate else None, seed=seed,
                   env={"SQL_TABLE": _files["table_path"]})


def plan_files(tier):
    encodings, eols = ("utf-8", "sig", "latin-1"), ("lf", "crlf", "mixed")
    if tier == "thorough":
        return [files_run("all", 1, encodings, eols), files_run("few", 2, ("utf-8",), ("lf", "crlf"))] + [
            files_run("all", d, encodings, eols, workers=1, simulate=1500, seed=SEED * 7919 + d) for d in (2, 3, 4, 6, 9)]
    return [files_run("all", 1, ("utf-8",), ("lf",)), files_run("quotes", 1, ("latin-1", "sig"), ("crlf", "mixed"))] + [
        files_run("all", d, encodings, eols, workers=1, simulate=n, seed=SEED * 7919 + d) for d, n in ((2, 250), (4, 150), (7, 60))]


def check_files(report, tier):
    root = tempfile.mkdtemp(prefix="scratch-")
    here = os.getcwd()
    try:
        _files["root"] = root
        _files["table_path"] = os.path.join(root, "sqls.json")
        table, messages = sql_table(_files["table_path"])
        _files.update(table=table, messages=messages)
        runs = []
        if report.prop != "C23":
            runs += plan_files(tier)
        if report.prop in ("C20", "C21", "C22", "C23", "C24"):
            import history

            runs += history.plan(tier, _files["table_path"])
        formatting.replay(report, runs, judge, concurrent=5 if tier == "quick" else 3)
    finally:
        os.chdir(here)
        shutil.rmtree(root, ignore_errors=True)
