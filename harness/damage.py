"""Damaged queries (Damage.tla): what has to hold for every text, query or not."""
import formatting
import render
import tlc
from common import SEED


def read_kept(toks, optional, text):
    """reads the text as the tokens, some of which may be missing: None, or (expected token, what is there)"""
    pos = 0
    for index, (c, t) in enumerate(toks):
        if t[0] in "+-" and len(t) > 1 and not text[pos:].lstrip().startswith(t):
            # a sign that stands behind an operand is an operator
            while text[pos:pos + 1] in (" ", "\n"):
                pos += 1
            if text[pos:pos + 1] != t[0]:
                return t, text[pos:pos + 40]
            pos, t = pos + 1, t[1:]
        while text[pos:pos + 1] in (" ", "\n", "\t", "\r") and pos < len(text):
            pos += 1
        piece = text[pos:pos + len(t)]
        if piece == t or (t[0] not in render.QUOTES and piece.upper() == t.upper()):
            pos += len(t)
        elif index + 1 not in optional:
            return t, text[pos:pos + 40]
    rest = text[pos:].strip()
    return ("the end", rest[:60]) if rest else None


def spread(toks, rng):
    """other white space; the case stays, since what is a keyword may be a name here"""
    return "".join((rng.choice(render.SPACES) if i else "") + (t.lower() if c == "k" else t) for i, (c, t) in enumerate(toks))


def judge(prop, fact, fmt, validate):
    toks = render.tokens(fact)
    text = render.plain(toks)
    bad = []
    optional, hopeless = set(fact["o"]), fact["no"]

    def report(what, **more):
        bad.append(dict(key=text, what=what, **more))

    ok, out = formatting.call(fmt, text)
    runs = 1
    if not ok and out.startswith("did not end"):
        report("formatting does not end")
        return bad, runs
    if prop == "C01":
        if ok:
            wrong = read_kept(toks, optional, out)
            if wrong:
                report("a text that is accepted loses, gains or moves tokens", expected=wrong[0], found=wrong[1], formatted=out)
    elif prop == "C02":
        if ok and not optional:
            ok2, again = formatting.call(fmt, out)
            runs += 1
            if not ok2 or again != out:
                report("formatting what was formatted changes it", once=out, twice=again)
    elif prop == "C03":
        other = spread(toks, formatting.rng_of(text))
        ok2, got = formatting.call(fmt, other)
        runs += 1
        if (ok2, ok2 and got) != (ok, ok and out):
            report("another spelling is formatted differently", spelling=other, one=out, other=got)
    elif prop == "C16":
        verdict_ok, errors = formatting.call(validate, text)
        runs += 1
        if not verdict_ok:
            report("is_valid() raises", observed=errors)
        elif not errors and (not ok or hopeless):
            report("text that cannot be parsed is valid", formatted=out)
        elif ok and hopeless:
            report("brackets that do not close are accepted", formatted=out)
    elif prop == "C15":
        verdict_ok, errors = formatting.call(validate, text)
        for name, other in [("spaced", spread(toks, formatting.rng_of(text)))] + ([("formatted", out)] if ok and not optional else []):
            ok2, got = formatting.call(validate, other)
            runs += 1
            if ok2 != verdict_ok or (ok2 and sorted(map(str, got)) != sorted(map(str, errors))):
                report("the verdict depends on the spelling", spelling=other, one=errors, other=got)
    return bad, runs


def run(pool, depth, bases, damage, few=False, workers=2, simulate=None, seed=None):
    constants = {"Pool": pool, "MaxDepth": depth, "Bases": "{%s}" % ", ".join(map(str, bases)), "Fanout": 1, "Wrong": "FALSE",
                 "MaxDamage": damage, "Few": "TRUE" if few else "FALSE"}
    return tlc.Run("Damage", constants, ["ReportD"], spec="SpecSomeD" if simulate else "SpecD", workers=workers, simulate=simulate,
                   depth=depth + damage + 1 if simulate else None, seed=seed)


def plan(tier):
    if tier == "thorough":
        return [run(p, 0, [1, 2, 3, 4], 1) for p in (1, 8 - SEED % 2)] + [run(1, 1, [b], 1, few=True) for b in (1, 2)] + [
            run(p, d, [1, 2, 3, 4], m, workers=1, simulate=1500, seed=SEED * 7919 + p * 10 + d) for p in range(1, 8) for d, m in ((3, 1), (9, 3))]
    return [run(1, 0, [1, 2, 3, 4], 1, few=True)] + [
        run(p, d, [1, 2, 3, 4], m, workers=1, simulate=k, seed=SEED * 7919 + p * 10 + d)
        for p in range(1, 8) for d, m, k in ((4, 2, 250),)]
