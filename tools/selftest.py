#!/usr/bin/env python3
"""setup_cmd: checks that everything the checks need is here and that the oracle agrees with worked examples of the
documentation (no use of the package)."""

import json
import os
import sys

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from pbt import model  # noqa: E402

spec = json.load(open(os.path.join(HERE, "data", "shipped_specs.json")))["default_ascii"]
# examples of the package documentation
r = model.encode({"t": "0210", "3": "111111", "39": "05"}, spec)
assert r.ok and r.wire == b"0210200000000200000011111105", r
r = model.decode(b"02004010100000000000161234567890123456123456111", spec)
assert r.ok and model.doc_dec(r.parts) == {"t": "0200", "p": "4010100000000000", "2": "1234567890123456", "12": "123456", "20": "111"}, r
assert sys.monitoring and len(os.listdir(os.path.join(HERE, "checks"))) >= 28
ids = [json.loads(line)["id"] for line in open(os.path.join(HERE, "properties.jsonl"))]
assert ids == [c["property"] for c in json.load(open(os.path.join(HERE, "MANIFEST.json")))["checks"]]
print("self-test passed")
