"""C20-C24, histories: every history of runs and edits over a tree of files (Cli.tla) is replayed in a scratch directory."""
import os
import re
import shutil

import files
import formatting
import tlc
from common import SEED
from files import block, decode, exit_status, get, options, put, run_cli, same_lines, summary_format, summary_validate  # noqa: F401

# as in Cli.tla
PATHS = ["a.py", "b.py", "n.txt", "d/a.py", "d/e/c.py", "d/e/__init__.py", "d/.h/x.py", "d/.y.py", "d/dir.py/q.py", "d/k.pyi", "d/z.PY", "d/py", "d/.py", "d/e/m n.o.py", "d/x.py~"]
LINKS = {"d/s.py": "../a.py", "d/e/gone.py": "nothing.py", "../links/la.py": "../w/a.py", "../links/ld": "../w/d"}
BAD = {
    "utf8": b"s = '\xff'\n",
    "cookie": b"# -*- coding: no-such-codec -*-\n",
    "bracket": b"x = (\n",
    "dedent": b"if x:\n    y\n  z\n",
    "nul": b'x = """\n',
}
FORMAT = {"none": None, "check": "check", "format": "format"}
VALIDATE = {"none": None, "validate": "validate", "verbose": "verbose"}


def content(pieces):
    if pieces == [["absent", ""]]:
        return None
    return b"".join(BAD[s] if c == "bad" else decode(s).encode("utf-8") for c, s in pieces)


def put_world(root, world):
    """the current directory becomes a fresh tree with this content"""
    for name in ("w", "links"):
        shutil.rmtree(os.path.join(root, name), ignore_errors=True)
        os.mkdir(os.path.join(root, name))
    os.chdir(os.path.join(root, "w"))
    for path in PATHS:
        os.makedirs(os.path.dirname(path) or ".", exist_ok=True)
    for link, target in LINKS.items():
        os.symlink(target, link)
    for path, data in zip(PATHS, world):
        if data is not None:
            put(path, data)


def read_world():
    return [get(p) if os.path.isfile(p) and not os.path.islink(p) else None for p in PATHS]


def written():
    return [p for p in PATHS if os.path.exists(p) and files.was_written(p)]


def fresh():
    for p in PATHS:
        if os.path.exists(p):
            os.utime(p, (files.EPOCH, files.EPOCH))


def tree(root):
    """every name below the scratch directory, and what the links lead to"""
    found = []
    for base, dirs, names in os.walk(root):
        for name in dirs + names:
            path = os.path.join(base, name)
            found.append((path, os.readlink(path) if os.path.islink(path) else ""))
    return sorted(found)


def group_lines(groups, lines):
    """the lines left after those of the groups, or None: the files of a directory may come in any order"""
    lines = list(lines)
    for group in groups:
        if group["invalid"]:
            if lines[:1] != ["Error: Invalid input"]:
                return None
            del lines[:1]
        waiting = [b for b in (block(*b) for b in group["lines"]) if b]
        while waiting:
            for b in waiting:
                if same_lines(b, lines[: len(b)]):
                    break
            else:
                return None
            waiting.remove(b)
            del lines[: len(b)]
    return lines


ABOUT = re.compile(r"(reformatted|would reformat|invalid queries in|error analysing|could not analyse) (.*?)(?: \(.*)?$")


def about(lines):
    """what is said about which file: [(words, name)]"""
    return [m.groups() for m in map(ABOUT.match, lines) if m]


def judge(prop, fact, root, messages):
    now = [content(p) for p in fact["w"]]
    put_world(root, now)
    names = tree(root)
    bad = []
    runs = 0
    shown = []
    cwd = os.getcwd()

    def report(what, **more):
        bad.append(dict(key="; ".join(shown), what=what, **more))

    def run(arguments):
        nonlocal runs
        runs += 1
        fresh()
        ok, got = formatting.call(run_cli, arguments)
        if not ok:
            return "raised " + got, []
        return got[0], [x.replace(cwd, "CWD") for x in got[1]]

    def real(names):
        return sorted(os.path.realpath(n.replace("CWD", cwd)) for n in names)

    for step in fact["h"]:
        if bad:
            break
        if step["op"] == "edit":
            path, data = PATHS[step["p"] - 1], content(step["c"])
            if data is not None:
                put(path, data)
            elif os.path.exists(path):
                os.remove(path)
            now[step["p"] - 1] = data
            shown.append("edit %s to %r" % (path, data and data.decode("utf-8", "replace").replace(files.SIGNS["$"], "not not .. ")))
            names = tree(root)
            continue
        inputs = [x.replace("CWD", cwd) for x in step["inputs"]]
        if step["op"] == "refused":
            shown.append(" ".join(step["options"] + step["inputs"]))
            if prop in ("C20", "C22"):
                code, lines = run(step["options"] + inputs)
                if code != 2 or lines:
                    report("options that do not go together are not refused", exit=code, printed=lines)
                if written() or read_world() != now or tree(root) != names:
                    report("a refused run changes files")
            continue
        mode = (FORMAT[step["fmt"]], VALIDATE[step["val"]])
        shown.append(" ".join(options(mode) + step["inputs"]))
        after = [content(x) if x else y for x, y in zip(step["after"], now)]
        failing = any(g["invalid"] or any(b["fail"] for b in g["blocks"]) for g in step["groups"])
        for g in step["groups"]:
            g["lines"] = [(b["s"], mode, b["ch"], [(line, messages[v - 1]) for line, v in b["loc"]], b["fail"]) for b in g["blocks"]]
        totals = ([summary_format(step["files"], step["ch"], mode[0] == "check")] if mode[0] else []) + (
            [summary_validate(step["invfiles"], step["inv"])] if mode[1] == "validate" else [])
        code, lines = None, []
        if prop == "C20" and mode[0]:
            code, lines = run(options(("check", mode[1])) + inputs)
            if written() or read_world() != now or tree(root) != names:
                report("--check-format changes files", changed=written())
            would = [n for w, n in about(lines) if w == "would reformat"]
            _, flines = run(options(("format", mode[1])) + inputs)
            did = [n for w, n in about(flines) if w == "reformatted"]
            if would != did or real(did) != real(written()):
                report("--check-format does not say what --format does", check=lines, format=flines, written=written())
            if code != 1 if written() else code and mode[1] != "validate":
                report("the exit status of --check-format does not say what --format does", check=code, written=written())
            for path, data in zip(PATHS, after):       # as the history goes on
                if data is not None:
                    put(path, data)
        else:
            code, lines = run(options(mode) + inputs)
            if prop == "C20" and (written() or read_world() != now or tree(root) != names):
                report("a run that only looks changes files", changed=written())
        left = [p for p, x, y in zip(PATHS, read_world(), after) if x != y]
        if prop == "C21" and mode[0] == "format":
            first = read_world()
            _, lines = run(options(mode) + inputs)
            if written() or read_world() != first or any(w == "reformatted" for w, _ in about(lines)):
                report("formatting again changes files", changed=written(), printed=lines)
            code, lines = run(options(("check", mode[1])) + inputs)
            if (code != 0 and mode[1] != "validate") or any(w == "would reformat" for w, _ in about(lines)):
                report("--check-format is not content after --format", exit=code, printed=lines)
        if prop == "C23":
            said = sorted(about(lines))
            meant = sorted(m for g in step["groups"] for b in g["lines"] for m in about(x.rstrip("*") for x in block(*b)))
            if said != meant:
                report("not exactly the Python files of the inputs are analysed, each once", mode=mode, observed=said, expected=meant)
            if left or tree(root) != names:
                report("not exactly the files of the inputs are formatted", files=left)
            counted = [x for x in lines if re.match(r"\d+ files? |No file |No invalid ", x)]
            if counted != totals:
                report("the totals do not count every file once", mode=mode, observed=counted, expected=totals)
        if prop == ("C24" if failing else "C22"):
            rest = group_lines(step["groups"], lines)
            if rest != totals or code != step["exit"]:
                report("the report or exit status is wrong", mode=mode, observed=lines, exit=code, expected_exit=step["exit"],
                       expected=[[block(*b) for b in g["lines"]] for g in step["groups"]], totals=totals)
            if prop == "C24" and left:
                report("a file that cannot be analysed, or one beside it, is not left as it should be", files=left)
        now = after
        if left and not bad:
            break               # what goes on from here is another property's matter
    return bad, runs


def run(table_path, steps, inputs, worlds=(), workers=2, simulate=None, seed=None):
    constants = {"MaxSteps": steps, "MaxInputs": inputs, "Worlds": "{%s}" % ", ".join(map(str, worlds))}
    return tlc.Run("Cli", constants, ["CheckPredictsFormat", "Converges", "ProcessedOnce", "Contained", "Report"],
                   spec="SpecSome" if simulate else "Spec", workers=workers, simulate=simulate,
                   depth=steps + 1 if simulate else None, seed=seed, env={"SQL_TABLE": table_path})


def plan(tier, table_path):
    if tier == "thorough":
        return [run(table_path, 1, 2, range(1, 7), workers=4), run(table_path, 2, 1, (1, 3))] + [
            run(table_path, steps, 4, workers=1, simulate=n, seed=SEED * 7919 + steps) for steps, n in ((3, 1500), (6, 1000), (12, 500))]
    return [run(table_path, 1, 1, range(1, 7))] + [
        run(table_path, steps, 4, workers=1, simulate=n, seed=SEED * 7919 + steps) for steps, n in ((2, 500), (5, 250), (9, 100))]
