"""C08-C15: every query the specification reaches is validated by the code and the errors are compared with the
specification's; C15 also compares spellings and the formatted text."""
import collections

import formatting
import render
import tlc
from common import SEED

KIND = [
    ("C11", "position"),
    ("C12", "LIMIT"),
    ("C12", "OFFSET"),
    ("C13", "must be type boolean"),
    ("C14", "Missing ON or USING"),
]
NAMES = ("was not found", "is ambiguous", "does not exist")


def kind(message):
    for prop, words in KIND:
        if words in message:
            return prop
    if any(w in message for w in NAMES):
        return "C10" if " in alias " in message or "ambiguous" in message else "C09"
    return "C08"


def difference(expected, got):
    a, b = collections.Counter(expected), collections.Counter(got)
    return sorted((a - b).elements()), sorted((b - a).elements())


def judge(prop, fact, fmt, validate):
    toks = render.tokens(fact)
    source = render.plain(toks)
    expected = sorted(render.decode(m) for m in fact["e"])
    bad = []

    def report(what, **more):
        bad.append(dict(key=source, what=what, **more))

    ok, errors = formatting.call(validate, source)
    got = sorted(map(str, errors)) if ok else ["raised " + errors]
    if prop == "C15":
        texts = formatting.spellings(toks, source)
        runs = 1
        ok, formatted = formatting.call(fmt, source)
        if ok:
            texts.append(("formatted", formatted))
        for name, text in texts:
            ok, errors = formatting.call(validate, text)
            runs += 1
            other = sorted(map(str, errors)) if ok else ["raised " + errors]
            if other != got:
                report("the verdict depends on the spelling", spelling=text, one=got, other=other)
        return bad, runs
    if prop == "C08":
        if not expected and got:
            report("a valid query is rejected", observed=got)
        elif any(m.startswith("raised") for m in got):
            report("validation raises", observed=got)
        return bad, 1
    missing, extra = difference(expected, got)
    kinds = {kind(m) for m in missing + extra}
    if prop == "C09":
        # missing columns: neither overlooked, nor reported twice, nor anything else reported
        hit = {"C09", "C08"} & kinds if any(kind(m) == "C09" for m in expected) else set()
    elif prop == "C10":
        hit = {"C09", "C10"} & kinds
    else:
        hit = {prop} & kinds
    if hit:
        report("errors differ", expected=expected, observed=got)
    return bad, 1


NAME_OVERRIDES = {k + "Prods": "Name" + k + "s" for k in ("Term", "Arith", "Cmp", "Bool", "Star", "Src")}
NAME_OVERRIDES.update({"AliasProds": "NameAliases", "JoinKinds": "NameJoinKinds", "SetKinds": "NameSetKinds"})
ALL = list(range(1, 12))


def run(pool, depth, bases, wrong=True, names=False, workers=3, simulate=None, seed=None):
    constants = {"Pool": pool, "MaxDepth": depth, "Bases": "{%s}" % ", ".join(map(str, bases)), "Fanout": 2,
                 "Wrong": "TRUE" if wrong else "FALSE"}
    return tlc.Run("Verdict", constants, ["Report"], spec="SpecSome" if simulate else "Spec", workers=workers,
                   simulate=simulate, depth=depth + 1 if simulate else None, seed=seed,
                   overrides=NAME_OVERRIDES if names else None)


def plan(tier, prop):
    wrong = prop != "C08"
    if tier == "thorough":
        runs = [run(8, 3, [3], names=True)] + [run(8, 2, [b], names=True) for b in ALL]
        runs += [run(p, 2, [b], wrong) for p in (1, 8) for b in ALL[:6]]
        runs += [run(p, 1, ALL, wrong) for p in range(1, 9)]
        runs += [run(p, d, ALL, wrong, workers=1, simulate=300, seed=SEED * 7919 + 100 * p + d)
                 for p in range(1, 9) for d in (6, 12)]
        runs += [run(8, d, ALL, wrong, names=True, workers=1, simulate=1500, seed=SEED * 7919 + d + k * 37)
                 for d in (4, 7, 10) for k in range(4)]
        return runs
    runs = [run(8, 2, [3], names=True), run(1, 2, [2], wrong, workers=2)]
    runs += [run(p, 1, ALL, wrong, workers=1) for p in range(1, 9)]
    runs += [run(8, d, ALL, wrong, names=True, workers=1, simulate=n, seed=SEED * 7919 + d)
             for d, n in ((3, 500), (5, 300), (8, 150))]
    runs += [run(p, 9, ALL, wrong, workers=1, simulate=30, seed=SEED * 7919 + 50 + p) for p in (1, 1 + SEED % 7, 8)]
    return runs
