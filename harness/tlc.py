"""Runs TLC and streams the facts its Report invariant prints."""
import json
import os
import re
import shutil
import subprocess
import tempfile

from common import SPEC, MachineryError

JAVA = [
    "java", "-XX:+UseParallelGC", "-Xmx6g", "-Xss16m", "-cp",
    "/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar",
    "tlc2.TLC",
]


class Run:
    """One TLC run.  iterate lines() for the raw fact lines, then read states/transitions."""

    def __init__(self, module, constants, invariants, spec="Spec", properties=(), workers=4, simulate=None,
                 depth=None, seed=None, extra=(), postcondition=None, view=None, timeout=3600, env=None,
                 overrides=None):
        self.module, self.timeout = module, timeout
        self.dir = tempfile.mkdtemp(prefix="tlc-")
        cfg = ["SPECIFICATION " + spec]
        if constants:
            cfg.append("CONSTANTS")
            cfg += [" %s = %s" % kv for kv in constants.items()]
            cfg += [" %s <- %s" % kv for kv in (overrides or {}).items()]
        if invariants:
            cfg.append("INVARIANTS " + " ".join(invariants))
        if properties:
            cfg.append("PROPERTIES " + " ".join(properties))
        if postcondition:
            cfg.append("POSTCONDITION " + postcondition)
        if view:
            cfg.append("VIEW " + view)
        cfg.append("CHECK_DEADLOCK FALSE")
        path = os.path.join(self.dir, "run.cfg")
        with open(path, "w") as f:
            f.write("\n".join(cfg) + "\n")
        self.cmd = JAVA + ["-noGenerateSpecTE", "-workers", str(workers), "-metadir",
                           os.path.join(self.dir, "states"), "-config", path]
        if simulate:
            self.cmd += ["-simulate", "num=%d" % simulate]
            if depth:
                self.cmd += ["-depth", str(depth)]
        if seed is not None:
            self.cmd += ["-seed", str(seed)]
        self.cmd += list(extra) + [module + ".tla"]
        self.simulate = simulate
        self.states = self.transitions = self.traces = 0
        self.tail = []
        self.env = env

    def lines(self):
        env = dict(os.environ)
        env.pop("JAVA_TOOL_OPTIONS", None)
        env.update(self.env or {})
        proc = subprocess.Popen(
            ["timeout", str(self.timeout)] + self.cmd, cwd=SPEC, stdout=subprocess.PIPE,
            stderr=subprocess.STDOUT, text=True, errors="replace", env=env,
        )
        try:
            for line in proc.stdout:
                if line.startswith('"@'):
                    yield line
                else:
                    self.tail.append(line)
                    if len(self.tail) > 400:
                        del self.tail[:200]
            proc.wait()
        finally:
            if proc.poll() is None:
                proc.kill()
                proc.wait()
            shutil.rmtree(self.dir, ignore_errors=True)
        text = "".join(self.tail)
        found = re.findall(r"([\d,]+) states generated, ([\d,]+) distinct", text)
        if found:
            self.transitions = int(found[-1][0].replace(",", ""))
            self.states = int(found[-1][1].replace(",", ""))
        else:
            found = re.findall(r"The number of states generated: ([\d,]+)", text)
            if found:
                self.transitions = int(found[-1].replace(",", ""))
        self.code = proc.returncode
        self.text = text
        if proc.returncode != 0:
            raise MachineryError("TLC failed (%s) on %s:\n%s" % (proc.returncode, self.module, text[text.find("Error:"):][:1500]))


def fact(line):
    return json.loads(json.loads(line)[1:])
