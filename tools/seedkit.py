"""Development aid: seedkit.py make ID... | check ID... [-- CHECK...] | all

make reads /verif/tools/seeds.json (id -> file, old, new, demo, property, needs, what_it_breaks) and writes
/verif/seeded/<id>; check applies a seed to a private copy of /repo (mount namespace), runs build, tests and demo,
and the given checks (default: the property's own)."""
import difflib
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.abspath(__file__))
SEEDED = os.path.join(os.path.dirname(HERE), "seeded")


def make(seeds, ident):
    s = seeds[ident]
    d = os.path.join(SEEDED, ident)
    os.makedirs(d, exist_ok=True)
    patch = ""
    for e in s["edits"]:
        path = os.path.join("/repo", e["file"])
        text = open(path).read()
        assert text.count(e["old"]) == e.get("count", 1), (ident, e["file"], text.count(e["old"]))
        new = text.replace(e["old"], e["new"])
        patch += "".join(difflib.unified_diff(text.splitlines(True), new.splitlines(True), "a/" + e["file"], "b/" + e["file"]))
    open(os.path.join(d, "patch.diff"), "w").write(patch)
    open(os.path.join(d, "demo.py"), "w").write(s["demo"])
    with open(os.path.join(d, "demo.sh"), "w") as f:
        f.write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1\n'
                'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    os.chmod(os.path.join(d, "demo.sh"), 0o755)
    json.dump({k: s[k] for k in ("property", "needs", "what_it_breaks")}, open(os.path.join(d, "meta.json"), "w"), indent=1)


INNER = r"""
set -u
mount --bind "$COPY" /repo
cd /repo
bash "$D/demo.sh" > /tmp/x.$$ 2>&1; echo "demo-clean $?"
git apply "$D/patch.diff" || echo "APPLY FAILED"
bash /opt/vp/build.sh >/dev/null 2>&1; echo "build $?"
bash /opt/vp/test.sh "$COPY.json" >/dev/null 2>&1
/usr/bin/python3 -c "import json,sys; b=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); o=set(json.load(open(sys.argv[1]))['passed']); print('tests passed', len(o), 'missing', sorted(b-o)[:5])" "$COPY.json"
bash "$D/demo.sh" > "$COPY.demo" 2>&1; echo "demo-patched $?"; tail -2 "$COPY.demo"
for c in $CHECKS; do
  start=$SECONDS
  cd "$VCOPY" && VERIF_SEED=1 VERIF_TIER=quick timeout 900 /opt/venv/bin/python harness/check.py $c > "$COPY.out" 2>&1
  echo "check $c exit $? in $((SECONDS-start)) s: $(grep -c '^VIOLATION' "$COPY.out") violation"
  grep -A12 '^{' "$COPY.out" | head -14
done
"""


def check(ident, checks):
    d = os.path.join(SEEDED, ident)
    meta = json.load(open(os.path.join(d, "meta.json")))
    copy = tempfile.mkdtemp(prefix="seed-")
    shutil.rmtree(copy)
    shutil.copytree("/repo", copy, symlinks=True)
    vcopy = copy + ".v"
    shutil.copytree("/verif", vcopy, symlinks=True, ignore=shutil.ignore_patterns(".git", "work", "seeded"))
    env = dict(os.environ, COPY=copy, VCOPY=vcopy, D=d, CHECKS=" ".join(checks if checks is not None else [meta["property"]]))
    print("==", ident, meta["property"], flush=True)
    p = subprocess.run(["unshare", "-Urm", "bash", "-c", INNER], env=env, capture_output=True, text=True)
    print(p.stdout, p.stderr[-500:], flush=True)
    shutil.rmtree(copy)
    shutil.rmtree(vcopy)
    for e in (".json", ".demo", ".out"):
        if os.path.exists(copy + e):
            os.unlink(copy + e)


def main():
    args = sys.argv[1:]
    checks = None
    if "--" in args:
        i = args.index("--")
        checks, args = args[i + 1:], args[:i]
    command, ids = args[0], args[1:]
    if command == "make":
        seeds = {}
        exec(open(os.path.join(HERE, "seeds.py")).read(), {"seeds": seeds})
        for i in ids or seeds:
            make(seeds, i)
    else:
        for i in ids or sorted(os.listdir(SEEDED)):
            check(i, checks)


main()
