#!/usr/bin/env python3
"""Writes MANIFEST.json from properties.jsonl and the table below."""

import json
import os

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = {
    "C01": ("property-based testing: generated specifications and dicts, round-trip oracle", "encode then decode"),
    "C02": ("property-based testing: differential against an independent reference encoder", "every byte of every message encode makes"),
    "C03": ("property-based testing: differential against an independent reference decoder", "every accepted message"),
    "C04": ("coverage-guided fuzzing of decode with random, mutated and mis-specified messages; totality oracle", "decode returns or raises DecodeError"),
    "C05": ("property-based testing and fuzzing of encode with arbitrary dicts; totality oracle", "encode returns or raises EncodeError"),
    "C06": ("property-based testing: well-formed messages with one injected defect; rejection oracle", "no malformed message is accepted"),
    "C07": ("property-based testing: valid dicts with injected defects; rejection oracle", "no invalid dict is encoded"),
    "C08": ("property-based testing: accounting invariants over accepted messages and dicts", "encoded dictionaries add up to the message"),
    "C09": ("property-based testing with injected defects: differential of error field, position and partial results", "DecodeError attributes"),
    "C10": ("property-based testing with injected defects: differential of error field and partial results", "EncodeError attributes"),
    "C11": ("property-based testing: pickle and copy round trips of generated errors", "errors survive pickling and copying"),
    "C12": ("property-based testing: generated field sets and bit patterns, set-to-bitmap oracle", "bitmaps and fields determine each other"),
    "C13": ("property-based testing: metamorphic relations over copies, orders and repetition, and mutation invariants", "encode leaves the dict alone"),
    "C14": ("property-based testing and fuzzing: decode, encode, decode idempotence on generated and damaged messages", "re-encoding normalises"),
    "C15": ("stateful property-based testing: call histories against a freshly executed copy of the package", "no hidden state"),
    "C16": ("property-based testing over generated thread schedules at line granularity against single-threaded results", "no interference between threads"),
    "C17": ("property-based testing: metamorphic relation over container kinds", "containers do not matter"),
    "C18": ("property-based testing: metamorphic relation over pairs of specifications", "irrelevant settings do not matter"),
    "C19": ("exhaustive generation of lengths for small indicators, sampled for large ones, notation oracle", "length indicators"),
    "C20": ("property-based testing with exhaustive small values: padding oracle", "odd nibble padding"),
    "C21": ("property-based testing: metamorphic relation over pairs of messages", "field independence"),
    "C22": ("property-based testing: print-outs parsed back, round-trip oracle", "pp loses nothing"),
    "C23": ("property-based testing: layout invariants and a reference renderer", "pp widths"),
    "C24": ("property-based testing over streams, orders and histories, with effect monitors", "pp only writes"),
    "C25": ("enumerated fields and lengths of the shipped specifications with generated contents, documentation oracle", "shipped specifications"),
    "C26": ("property-based testing: generated header and type configurations, reference and metamorphic oracle", "header and type"),
    "C27": ("property-based testing over all text codecs and aliases: differential against the codecs themselves", "text encodings"),
    "C28": ("enumerated limits and sizes around them plus fuzzing, size oracle", "length limits"),
    "C29": ("property-based testing: differential between processes with different interpreter settings", "interpreter modes"),
    "C30": ("property-based testing: metamorphic relation over chains of generated specifications", "translation"),
    "C31": ("property-based testing with injected defects: partial results against form invariants and a reference renderer", "partial results"),
    "C32": ("stateful property-based testing with injected interruptions, against a freshly executed copy of the package", "interruptions"),
    "C33": ("property-based testing and fuzzing: metamorphic relation over pairs of messages with common first bytes", "left to right"),
    "C34": ("fuzzing with deterministic measures of work and memory, linear bounds as oracle", "cost"),
}
TECH["C35"] = ("property-based testing with injected defects: effect monitors (streams, logging, warnings, audit events, interpreter state)", "side effects")
TECH["C36"] = ("property-based testing over call sequences: weak references, search of reachable objects, memory growth", "residue")
TECH["C37"] = ("property-based testing with injected defects: every message compared with the defects the failing part has", "reasons of errors")
NOTES = json.load(open(os.path.join(VERIF, "tools", "level_notes.json")))


def main():
    ids = [json.loads(line)["id"] for line in open(os.path.join(VERIF, "properties.jsonl"))]
    assert ids == sorted(TECH)
    m = {
        "version": 1,
        "setup_cmd": "python3 -c \"import sys; assert sys.version_info >= (3, 12)\" && python3 tools/selftest.py",
        "checks": [
            {
                "property": i,
                "quick_cmd": f"VERIF_TIER=quick python3 check.py {i}",
                "thorough_cmd": f"VERIF_TIER=thorough python3 check.py {i}",
                "evidence_file": f"evidence/{i}.json",
                "technique": TECH[i][0],
                "level": "exploration",
                "level_note": NOTES["common"] + (" " + NOTES[i] if i in NOTES else ""),
            }
            for i in ids
        ],
        "not_applicable": [],
        "notes": "Every check is python3 check.py <ID>; --replay FILE re-runs a reported case. No hooks are needed: the package is pure Python and is executed from /repo's working tree.",
    }
    with open(os.path.join(VERIF, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
