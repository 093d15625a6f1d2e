"""C16: every query Verdict.tla reaches is taken through histories of calls that QueryObject.tla reaches; the answers are
compared with those of processes in which nothing was called before."""
import collections
import json
import os
import re
import signal
import struct

import damage
import formatting
import render
import tlc
import verdict
from common import SEED, MachineryError

VARIANTS = ("plain", "spaced", "swapped", "literal", "broken")


def histories(tier):
    def run(objects, steps, slots, variants, **more):
        constants = {"MaxObjects": objects, "MaxSteps": steps, "Slots": "{%s}" % ", ".join(map(str, slots)),
                     "Variants": "{%s}" % ", ".join('"%s"' % v for v in variants)}
        simulate = more.get("simulate")
        return tlc.Run("QueryObject", constants, ["ByTextAlone", "NeverValid", "Report"], spec="SpecSome" if simulate else "Spec",
                       depth=steps + 1 if simulate else None, **more)

    deep = tier == "thorough"
    return [
        run(1, 5 if deep else 4, (1,), ("plain", "broken"), workers=4),
        run(2, 4, (1,), ("plain", "swapped"), workers=4),
        run(2, 4, (1,), ("plain", "literal"), workers=4),
        run(3, 9, (1, 2), VARIANTS, workers=1, simulate=4000 if deep else 1500, seed=SEED * 7919 + 1),
        run(4, 14, (1, 2, 3), VARIANTS, workers=1, simulate=4000 if deep else 1000, seed=SEED * 7919 + 2),
    ]


# ------------------------------------------------------------------------------------------------- fresh answers
class Fresh:
    """a process that answers nothing itself, but has a child of its own answer each question"""

    def __init__(self):
        ask_r, self.ask = os.pipe()
        self.hear, hear_w = os.pipe()
        if os.fork() == 0:
            os.close(self.ask)
            os.close(self.hear)
            signal.setitimer(signal.ITIMER_REAL, 0)
            try:
                self.serve(ask_r, hear_w)
            finally:
                os._exit(0)
        os.close(ask_r)
        os.close(hear_w)
        self.known = {}

    @staticmethod
    def take(fd, size):
        data = b""
        while len(data) < size:
            more = os.read(fd, size - len(data))
            if not more:
                return None
            data += more
        return data

    @classmethod
    def message(cls, fd):
        head = cls.take(fd, 4)
        return None if head is None else cls.take(fd, struct.unpack("I", head)[0])

    @staticmethod
    def send(fd, data):
        data = struct.pack("I", len(data)) + data
        while data:
            data = data[os.write(fd, data):]

    def serve(self, ask, hear):
        while True:
            question = self.message(ask)
            if question is None:
                return
            child = os.fork()
            if child == 0:
                try:
                    kind, text = json.loads(question)
                    self.send(hear, json.dumps(answer(kind, text)).encode())
                finally:
                    os._exit(0)
            os.waitpid(child, 0)

    def __call__(self, kind, text):
        if (kind, text) not in self.known:
            if len(self.known) > 20000:
                self.known.clear()
            self.send(self.ask, json.dumps([kind, text]).encode())
            data = self.message(self.hear)
            if data is None:
                raise MachineryError("no fresh answer")
            self.known[kind, text] = json.loads(data)
        return self.known[kind, text]


def answer(kind, text):
    import sqlvalidator

    if kind == "format":
        ok, out = formatting.call(sqlvalidator.format_sql, text)
        return out if ok else None

    def validate():
        query = sqlvalidator.parse(text)
        return [query.is_valid(), [str(e) for e in query.errors]]

    ok, out = formatting.call(validate)
    return out if ok else ["raised", [out]]


# ------------------------------------------------------------------------------------------------- texts
def swap_names(toks):
    return [(t[0], t[1].swapcase() if t[0] == "n" and re.fullmatch(r"[a-z_]\w*", t[1]) else t[1]) + tuple(t[2:]) for t in toks]


def change_literals(text):
    """another query: the inside of every quoted part is different, but only in case or spacing"""
    return re.sub(r"'([^']*)'|\"([^\"]*)\"|`([^`]*)`", lambda m: m.group()[0] + m.group()[1:-1].swapcase().replace(" ", "  ")
                  + m.group()[0], text)


BROKEN = [
    lambda q: q + " (",
    lambda q: "( " + q,
    lambda q: "update t set a = 1",
    lambda q: "",
    lambda q: re.sub("^(select|with)", r"\1t", q),
    lambda q: re.sub("^(select|with) ", "", q),
    lambda q: "insert into t " + q,
    lambda q: "explain " + q,
    lambda q: q + " (select",
    lambda q: "-- nothing",
    lambda q: "select",
]


def variants(toks, rng):
    plain = render.plain(toks)
    return {
        "plain": plain,
        "spaced": render.spaced(toks, rng),
        "swapped": render.plain(swap_names(toks)),
        "literal": change_literals(plain),
        "broken": rng.choice(BROKEN)(plain),
    }


# ------------------------------------------------------------------------------------------------- judging
_objects = {"histories": [], "pid": None}


def judge(prop, fact, fmt, validate):
    import sqlvalidator

    if "no" in fact:
        return damage.judge(prop, fact, fmt, validate)
    if _objects["pid"] != os.getpid():
        _objects.update(pid=os.getpid(), fresh=Fresh(), last=collections.deque(maxlen=2))
    fresh = _objects["fresh"]
    toks = render.tokens(fact)
    source = render.plain(toks)
    rng = formatting.rng_of(source)
    mine = variants(toks, rng)
    last = _objects["last"]
    texts = [mine] + list(last)
    while len(texts) < 3:
        texts.append(mine)
    last.appendleft(mine)
    bad, runs = [], 0
    for history in rng.sample(_objects["histories"], 4):
        objects = {}
        shown = []
        for op, k, slot, variant, expected in history:
            text = texts[slot - 1][variant]
            shown.append("%s(%s)" % (op, json.dumps(text) if op in ("new", "format_sql") else k))
            runs += 1
            wrong = None
            if op == "new":
                objects[k] = sqlvalidator.parse(text)
            elif op == "valid":
                ok, got = formatting.call(objects[k].is_valid)
                meant = fresh("valid", text)[0]
                if not ok or got is not meant:
                    wrong = (meant, got)
                elif expected == "false" and got:
                    wrong = (False, got)
                elif got != (not objects[k].errors):
                    wrong = ("as errors says", got)
            elif op == "errors":
                if expected == "none":
                    continue
                got = [str(e) for e in objects[k].errors]
                meant = fresh("valid", text)[1]
                if got != meant or (expected == "not empty" and not got):
                    wrong = (meant, got)
            else:
                ok, got = formatting.call(objects[k].format) if op == "format" else formatting.call(fmt, text)
                got = got if ok else None
                meant = fresh("format", text)
                if got != meant or (expected == "raises" and ok):
                    wrong = (meant, got)
            if wrong:
                bad.append(dict(key=source, what="an answer depends on what was called before, or unparsable text passes",
                                history=shown, expected=wrong[0], observed=wrong[1]))
                break
    return bad, runs


def plan(tier):
    if tier == "thorough":
        return verdict.plan("quick", "C16") + [verdict.run(p, d, verdict.ALL, workers=1, simulate=300, seed=SEED * 7919 + 100 * p + d)
                                               for p in range(1, 9) for d in (5, 11)]
    return [verdict.run(p, d, verdict.ALL, workers=1, simulate=40, seed=SEED * 7919 + d * 10 + p) for p in range(1, 9) for d in (4, 9)]


def check(report, tier):
    count = 0
    for run in histories(tier):
        for line in run.lines():
            _objects["histories"].append(tlc.fact(line))
            count += 1
        report.add("history_states", run.states)
        report.add("history_transitions", run.transitions)
    report.add("histories", count)
    formatting.replay(report, plan(tier) + damage.plan(tier), judge, concurrent=5 if tier == "quick" else 3)
