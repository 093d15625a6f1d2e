"""C01-C08: every query the specification reaches is formatted by the code, in several spellings, and judged
against what the specification says about it."""
import multiprocessing
import random
import signal
import zlib

import render
import tlc
from common import JOBS, SEED, MachineryError

TIME_PER_CASE = 20


class TooLong(BaseException):
    pass


def _alarm(*_):
    raise TooLong()


def call(function, *args):
    """(True, value) or (False, description of what was raised)"""
    signal.setitimer(signal.ITIMER_REAL, TIME_PER_CASE)
    try:
        return True, function(*args)
    except TooLong:
        return False, "did not end within %d s" % TIME_PER_CASE
    except Exception as e:  # noqa
        return False, "%s: %s" % (type(e).__name__, str(e)[:200])
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)


def rng_of(source):
    return random.Random(zlib.crc32(source.encode()) * 1000003 + SEED)


def spellings(toks, source):
    rng = rng_of(source)
    return [
        ("spaced", render.spaced(toks, rng)),
        ("tight", render.tight(toks, rng)),
        ("lines", render.upper_lines(toks)),
    ]


def judge(prop, fact, fmt, validate):
    """violations of one property shown by one query of the specification"""
    toks = render.tokens(fact)
    source = render.plain(toks)
    bad = []

    def report(what, **more):
        bad.append(dict(key=source, what=what, **more))

    ok, out = call(fmt, source)
    runs = 1
    if not ok:
        if prop != "C03":
            report("formatting fails", observed=out)
            return bad, runs
    if prop == "C01":
        for name, text in [("plain", source)] + spellings(toks, source)[:2]:
            ok, got = (ok, out) if name == "plain" else call(fmt, text)
            runs += 1
            if not ok:
                report("formatting fails", spelling=text, observed=got)
                continue
            walk = render.Walk(toks, got)
            if walk.error:
                report("tokens lost, added, moved or merged", spelling=text, expected=walk.error[1],
                       found=walk.error[2], formatted=got)
    elif prop == "C02":
        for name, text in [("plain", source)] + spellings(toks, source)[1:2]:
            ok, got = (ok, out) if name == "plain" else call(fmt, text)
            if not ok:
                report("formatting fails", spelling=text, observed=got)
                continue
            ok, again = call(fmt, got)
            runs += 2
            if not ok or again != got:
                report("formatting the formatted query changes it", once=got, twice=again)
    elif prop == "C03":
        for name, text in spellings(toks, source):
            ok2, got = call(fmt, text)
            runs += 1
            if (ok2, got if ok2 else "") != (ok, out if ok else ""):
                report("another spelling is formatted differently", spelling=text, one=out, other=got)
    elif prop == "C04":
        for name, text in [("plain", source)] + spellings(toks, source)[:1]:
            ok, got = (ok, out) if name == "plain" else call(fmt, text)
            runs += 1
            if not ok:
                report("formatting fails", spelling=text, observed=got)
                continue
            walk = render.Walk(toks, got)
            if walk.error and walk.error[0] == "n":
                report("a name or literal is not kept as it was", spelling=text, expected=walk.error[1],
                       found=walk.error[2], formatted=got)
    elif prop == "C07":
        for name, text in [("plain", source)] + spellings(toks, source)[:1]:
            ok, got = (ok, out) if name == "plain" else call(fmt, text)
            runs += 1
            if not ok:
                report("formatting fails", spelling=text, observed=got)
                continue
            walk = render.Walk(toks, got)
            if walk.wrong_case:
                report("not upper case", words=walk.wrong_case[:5], formatted=got)
    elif prop in ("C05", "C06"):
        expected = render.layout(fact)
        if out != expected:
            report("layout", expected=expected, formatted=out)
    return bad, runs


_state = {}


def _init(prop, judge_function):
    import sqlvalidator

    signal.signal(signal.SIGALRM, _alarm)

    def validate(sql):
        query = sqlvalidator.parse(sql)
        query.is_valid()
        return query.errors

    _state.update(prop=prop, fmt=sqlvalidator.format_sql, validate=validate, judge=judge_function)


def _work(lines):
    bad, runs, seen, samples = [], 0, [], []
    for line in lines:
        fact = tlc.fact(line)
        b, r = _state["judge"](_state["prop"], fact, _state["fmt"], _state["validate"])
        runs += r
        bad += b[:3]
        seen.append(zlib.crc32(line.encode()) | (len(line) << 32))
        if len(samples) < 1:
            samples.append(render.plain(render.tokens(fact)) if "t" in fact else fact.get("p", fact.get("h")))
    return bad[:60], runs, len(lines), seen, samples


def _feed(runs, concurrent, queue):
    """starts the TLC runs, some at a time, and hands on their lines in chunks"""
    import threading

    lock = threading.Semaphore(concurrent)
    errors = []

    def one(run):
        with lock:
            try:
                chunk = []
                for line in run.lines():
                    chunk.append(line)
                    if len(chunk) >= 100:
                        queue.put(chunk)
                        chunk = []
                if chunk:
                    queue.put(chunk)
            except MachineryError as e:
                errors.append(e)

    threads = [threading.Thread(target=one, args=(r,), daemon=True) for r in runs]
    for t in threads:
        t.start()

    def wait():
        for t in threads:
            t.join()
        queue.put(None)

    threading.Thread(target=wait, daemon=True).start()
    return errors


def replay(report, runs, judge_function=judge, concurrent=4, workers=JOBS):
    """Streams the facts of all TLC runs through the code."""
    import queue as queues
    import threading

    seen = set()
    context = multiprocessing.get_context("fork")
    with context.Pool(workers, _init, (report.prop, judge_function)) as pool:
        queue = queues.Queue(200)
        errors = _feed(runs, concurrent, queue)
        window = threading.Semaphore(4 * workers)
        failure = []

        def done(result):
            window.release()
            bad, ran, cases, hashes, samples = result
            report.add("evaluations", ran)
            report.add("facts", cases)
            seen.update(hashes)
            for s in samples:
                report.sample(s)
            for b in bad:
                report.violation(b)

        def failed(e):
            window.release()
            failure.append(e)

        pending = []
        while True:
            chunk = queue.get()
            if chunk is None:
                break
            window.acquire()
            pending.append(pool.apply_async(_work, (chunk,), callback=done, error_callback=failed))
            if len(pending) > 1000:
                pending = [p for p in pending if not p.ready()]
        for p in pending:
            p.wait()
        pool.close()
        pool.join()
    if errors:
        raise errors[0]
    if failure:
        raise MachineryError("replay failed: %r" % failure[0])
    report.counts["distinct_nontrivial"] = len(seen)
    report.counts["states"] = sum(r.states or r.transitions for r in runs)
    report.counts["transitions"] = sum(r.transitions for r in runs)
    report.counts["traces_validated_against_impl"] = len(seen)


def query_run(pool, depth, bases, workers=3, simulate=None, seed=None):
    constants = {"Pool": pool, "MaxDepth": depth, "Bases": "{%s}" % ", ".join(map(str, bases)), "Fanout": 2, "Wrong": "FALSE"}
    return tlc.Run("Query", constants, ["TokensKept", "ShapeOK", "Report"],
                   spec="SpecSome" if simulate else "Spec", workers=workers, simulate=simulate,
                   depth=depth + 1 if simulate else None, seed=seed)


def plan(tier):
    if tier == "thorough":
        runs = [query_run(p, 2, [b]) for p in range(1, 8) for b in (4, 3, 1, 2)]
        runs += [query_run(p, d, [1, 2, 3, 4], workers=1, simulate=400, seed=SEED * 7919 + 100 * p + d)
                 for p in range(1, 8) for d in (6, 12, 20)]
        return runs
    order = [1 + (SEED + k) % 7 for k in range(7)]
    runs = [query_run(1, 2, [2]), query_run(order[0], 2, [1])]
    runs += [query_run(p, 1, [1, 2, 3, 4], workers=1) for p in range(1, 8)]
    runs += [query_run(p, 12, [1, 2, 3, 4], workers=1, simulate=60, seed=SEED * 7919 + p) for p in order]
    return runs


WIDE_OVERRIDES = {k + "Prods": "Wide" + k + "s" for k in ("Term", "Arith", "Cmp", "Bool")}
WIDE_OVERRIDES["Window"] = "Near"
WIDE_BASES = list(range(1, 17))


def wide_run(padded, depth, bases, workers=3, simulate=None, seed=None):
    constants = {"Pool": 1, "MaxDepth": depth, "Bases": "{%s}" % ", ".join(map(str, bases)), "Fanout": 2,
                 "Wrong": "FALSE", "Padded": '"%s"' % padded}
    return tlc.Run("Wide", constants, ["Report"], spec="SpecSome" if simulate else "Spec", workers=workers,
                   simulate=simulate, depth=depth + 1 if simulate else None, seed=seed, overrides=WIDE_OVERRIDES)


def wide_plan(tier):
    if tier == "thorough":
        runs = [wide_run(c, 2, [b]) for c in "ab" for b in WIDE_BASES]
        runs += [wide_run(c, 1, WIDE_BASES) for c in "cdeg"]
        runs += [wide_run(c, d, WIDE_BASES, workers=1, simulate=300, seed=SEED * 7919 + d)
                 for c in "abcd" for d in (3, 5, 8)]
        return runs
    runs = [wide_run(c, 1, WIDE_BASES) for c in "abcde"]
    runs += [wide_run("ab"[SEED % 2], 2, [1 + SEED % 2])]
    runs += [wide_run(c, d, WIDE_BASES, workers=1, simulate=n, seed=SEED * 7919 + d)
             for c in "ab" for d, n in ((3, 120), (6, 40))]
    return runs


def some_wide(tier):
    """wide conditions for the properties that are not about their layout"""
    if tier == "thorough":
        return wide_plan(tier)
    return [wide_run("b", 1, WIDE_BASES, workers=1), wide_run("a", 4, WIDE_BASES, workers=1, simulate=50, seed=SEED * 7919)]


def literal_run(pieces, workers=2, simulate=None, seed=None):
    constants = {"Pool": 1, "Wrong": "FALSE", "MaxPieces": pieces, "Fanout": 1}
    return tlc.Run("Literal", constants, ["Closed", "Report"], spec="SpecSome" if simulate else "Spec", workers=workers,
                   simulate=simulate, depth=pieces + 1 if simulate else None, seed=seed)


def literal_plan(tier, much):
    """literals of any content; much: for the property that is about them"""
    if tier == "thorough":
        return ([literal_run(2)] if much else [literal_run(1)]) + [
            literal_run(d, workers=1, simulate=1500, seed=SEED * 7919 + d) for d in (6, 12, 25)]
    return ([literal_run(1)] if much else []) + [
        literal_run(d, workers=1, simulate=n * (4 if much else 1), seed=SEED * 7919 + d) for d, n in ((6, 100), (15, 80))]


def words_run(changes, workers=2, simulate=None, seed=None):
    constants = {"Pool": 1, "Wrong": "FALSE", "MaxDepth": changes, "Fanout": 1}
    return tlc.Run("Words", constants, ["TokensKept", "Report"], spec="SpecSome" if simulate else "Spec", workers=workers,
                   simulate=simulate, depth=changes + 1 if simulate else None, seed=seed)


def words_plan(tier):
    """every word of the dialect in every place it has a meaning, and as a name where it has none"""
    if tier == "thorough":
        return [words_run(0)] + [words_run(d, workers=1, simulate=6000, seed=SEED * 7919 + d) for d in (3, 8, 16)]
    return [words_run(0), words_run(5, workers=1, simulate=400, seed=SEED * 7919 + 5)]
