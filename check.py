#!/usr/bin/env python3
"""check.py <property> [--replay FILE]: decides one property on the working tree of /repo (or $VERIF_REPO).

VERIF_SEED (default 1) seeds every random choice; VERIF_TIER is quick (default) or thorough. Exit 0: held on everything
explored; 1: violated (a VIOLATION line names the replay file); 2: the harness itself failed."""

import importlib
import json
import os
import sys
import traceback

sys.dont_write_bytecode = True
if os.environ.get("PYTHONHASHSEED") != "0":
    os.environ["PYTHONHASHSEED"] = "0"  # set iteration order must not make a case irreproducible
    os.execv(sys.executable, [sys.executable, *sys.argv])
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, HERE)


def main():
    prop = sys.argv[1]
    from pbt import engine, sut

    title = ""
    with open(os.path.join(HERE, "properties.jsonl")) as f:
        for line in f:
            rec = json.loads(line)
            if rec["id"] == prop:
                title = rec["title"]
    mod = importlib.import_module(f"checks.{prop.lower()}")
    if len(sys.argv) > 3 and sys.argv[2] == "--replay":
        return engine.replay(prop, title, mod.TESTS, sys.argv[3], sut.CODES)
    for line in known_findings(prop):
        print(line)
    return engine.run_check(
        prop,
        title,
        mod.TESTS,
        mod.RULE,
        assumptions=getattr(mod, "ASSUMPTIONS", ()),
        codes=sut.CODES,
        dictionary_size=sut.DICT.size(),
    )


def known_findings(prop):
    """Open findings of this property. There are none: every defect found so far was repaired (fixed: lines), so nothing
    is suppressed anywhere."""
    out = []
    with open(os.path.join(HERE, "known_findings.txt")) as f:
        for line in f:
            if line.startswith(f"KNOWN-FINDING: property={prop} "):
                out.append(line.rstrip("\n"))
    return out


if __name__ == "__main__":
    try:
        code = main()
    except Exception:
        traceback.print_exc()
        code = 2
    sys.exit(code)
