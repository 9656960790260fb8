#!/usr/bin/env python3
"""tools/plant.py [ids...]: builds /verif/seeded/<id> from tools/bugs.py, after confirming in a scratch copy that the change
builds, passes the repository's tests, and that its demonstration tells the two trees apart.

tools/plant.py --check [ids...]: runs the checks of the bug's property (or with --all every check) against each seeded bug."""

import json
import os
import shutil
import subprocess
import sys
import tempfile

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
SEEDED = os.path.join(VERIF, "seeded")
REPO = "/repo"
sys.path.insert(0, HERE)

DEMO_SH = """#!/bin/bash
# run with cwd = the repository; exit 0: behaves as it should
exec env PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$PWD" python3 "$(dirname "$0")/demo.py"
"""


def sh(cmd, cwd, **kw):
    return subprocess.run(cmd, cwd=cwd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def scratch():
    d = tempfile.mkdtemp(prefix="plant-")
    shutil.rmtree(d)
    shutil.copytree(REPO, d, symlinks=True)
    return d


def tests(d):
    r = sh("PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider --timeout=300 2>&1 | tail -15", d)
    ok = " passed" in r.stdout and "failed" not in r.stdout and "error" not in r.stdout.lower().split("\n")[-2]
    return ok, r.stdout


def demo(d, where):
    r = sh(f"bash {where}/demo.sh", d, timeout=300)
    return r.returncode, r.stdout


def build(bug):
    d = scratch()
    w = tempfile.mkdtemp(prefix="demo-")
    try:
        with open(os.path.join(w, "demo.sh"), "w") as f:
            f.write(DEMO_SH)
        with open(os.path.join(w, "demo.py"), "w") as f:
            f.write(bug["demo"].lstrip("\n"))
        rc, out = demo(d, w)
        if rc != 0:
            return f"demo fails on the unchanged tree: {out[-600:]}"
        for name, old, new, *nth in bug["edits"]:
            p = os.path.join(d, "iso8583", name)
            t = open(p).read()
            if t.count(old) != (2 if nth else 1):
                return f"{t.count(old)} places for {old!r} in {name}"
            if nth:
                i = t.index(old) if nth[0] == 0 else t.rindex(old)
                t = t[:i] + new + t[i + len(old) :]
            else:
                t = t.replace(old, new)
            open(p, "w").write(t)
        r = sh("python3 -m compileall -q iso8583 >/dev/null && find . -name __pycache__ -path './iso8583/*' -prune -o -print >/dev/null; git diff -- iso8583", d)
        patch = r.stdout
        ok, out = tests(d)
        if not ok:
            return f"tests fail: {out[-500:]}"
        rc, out = demo(d, w)
        if rc == 0:
            return "demo passes with the change"
        dest = os.path.join(SEEDED, bug["id"])
        os.makedirs(dest, exist_ok=True)
        for n in ("demo.sh", "demo.py"):
            shutil.copyfile(os.path.join(w, n), os.path.join(dest, n))
        os.chmod(os.path.join(dest, "demo.sh"), 0o755)
        with open(os.path.join(dest, "patch.diff"), "w") as f:
            f.write(patch)
        with open(os.path.join(dest, "meta.json"), "w") as f:
            json.dump({"property": bug["prop"], "needs": bug["needs"], "what_it_breaks": bug["breaks"]}, f, indent=1)
            f.write("\n")
        return "planted"
    finally:
        shutil.rmtree(d)
        shutil.rmtree(w)


def against(bid, props, tier="quick"):
    """Which of the checks report the bug: {property: verdict}."""
    d = scratch()
    try:
        r = sh(f"git apply {SEEDED}/{bid}/patch.diff", d)
        if r.returncode:
            return {"apply": r.stdout}
        out = {}
        for p in props:
            env = dict(os.environ, VERIF_REPO=d, VERIF_TIER=tier)
            r = sh(f"python3 check.py {p}", VERIF, env=env)
            hit = f"VIOLATION property={p} " in r.stdout
            out[p] = "caught" if r.returncode == 1 and hit else "missed" if r.returncode == 0 else f"rc={r.returncode} {r.stdout[-300:]}"
            out[p] += " " + r.stdout.strip().split("\n")[-1].split(", ")[-2]
        return out
    finally:
        shutil.rmtree(d)


def main():
    args = sys.argv[1:]
    if args and args[0] == "--check":
        args = args[1:]
        every = "--all" in args
        args = [a for a in args if a != "--all"]
        ids = args or sorted(os.listdir(SEEDED))
        allp = [f"C{i:02d}" for i in range(1, 38)]
        missed = 0
        for b in ids:
            prop = json.load(open(os.path.join(SEEDED, b, "meta.json")))["property"]
            res = against(b, allp if every else [prop])
            if every:
                print(b, prop, res[prop], "| caught by", " ".join(p for p in allp if res[p].startswith("caught")), flush=True)
            else:
                print(b, res, flush=True)
            missed += not res.get(prop, "").startswith("caught")
        print(f"{missed} of {len(ids)} not caught by the check of their property")
        return
    import bugs

    for bug in bugs.BUGS:
        if not args or bug["id"] in args:
            if not args and os.path.exists(os.path.join(SEEDED, bug["id"], "patch.diff")):
                continue
            print(bug["id"], build(bug), flush=True)


if __name__ == "__main__":
    main()
