import copy

from checks.common import *
from checks import mutate
from pbt import faults, sut
from pbt.engine import RandomTest

RULE = (
    HEADLINE
    + "; settings documented to play no role for the fields of the message are changed, and encode and decode (of well-formed, randomly changed and "
    "malformed messages) have to give identical outcomes. Non-trivial: at least one setting differed; counted per distinct (message, settings)"
)
ASSUMPTIONS = ("pads are strings", "a disabled header keeps max_len at 0 or below")


def other_pad(src):
    return src.pick(("0", "F", "f", "A5", "", "x", " ", "é"))


def irrelevant(src, spec, doc):
    """A copy of spec with other irrelevant settings, and whether only encode is unaffected."""
    out = {k: dict(v) for k, v in spec.items()}
    used = set(doc) | {"h", "t", "p", "1"}
    changed = []
    encode_only = False
    for _ in range(1 + src.draw(5)):
        k = src.draw(12)
        key = src.pick(list(doc) + ["p", "1", "h"])
        fs = out[key]
        field = key.isdigit() and key != "1" or key == "h" and model.has_header(spec)
        if k == 0:
            if src.chance(1, 2):
                fs.pop("desc", None)
            else:
                fs["desc"] = src.pick(("", "b", "Another description", None, 5, "nibbles"))
        elif k == 1 and field and fs["len_type"] == 0:
            fs["len_enc"] = src.pick(("b", "bcd", "ascii", "cp500", "no-such-codec"))
        elif k == 2 and field:
            if fs.get("len_count", "bytes") != "bytes":
                continue
            if "len_count" in fs:
                del fs["len_count"]
            else:
                fs["len_count"] = "bytes"
        elif k == 3 and field:
            odd = model.is_bin(fs) and fs.get("len_count") == "nibbles"
            if odd and len(doc[key]) % 2:
                continue
            if odd:
                # decoding other (malformed) messages may see odd data in this field
                encode_only = True
            for side in ("left_pad", "right_pad"):
                if src.chance(1, 2):
                    fs[side] = other_pad(src)
                elif src.chance(1, 2):
                    fs.pop(side, None)
        elif k == 4 and field and fs.get("left_pad") and model.is_bin(fs):
            if src.chance(1, 3):
                fs.pop("right_pad", None)
            else:
                fs["right_pad"] = other_pad(src)
            encode_only = True
        elif k == 5 and not field:
            if key == "h":
                continue
            for p, v in (("max_len", src.pick((0, 1, 4, 8, 99, -1))), ("len_type", src.draw(5)), ("len_enc", src.pick(("b", "bcd", "x"))), ("len_count", src.pick(("nibbles", "bytes")))):
                if src.chance(1, 2):
                    fs[p] = v
            if src.chance(1, 3):
                fs["left_pad"] = other_pad(src)
        elif k == 6 and not model.has_header(spec):
            out["h"] = {"data_enc": src.pick(("b", "ascii", "nope")), "len_enc": "b", "len_type": src.draw(5), "max_len": src.pick((0, -1, -100))}
        elif k == 7:
            if src.chance(1, 2):
                out["65"] = gens.field(src, big=50)
            else:
                out.pop("65", None)
            key = "65"
        elif k == 8:
            free = [n for n in gens.ALL_FIELDS if str(n) not in doc]
            if not free:
                continue
            key = str(src.pick(free))
            if src.chance(1, 2) or key not in out:
                out[key] = gens.field(src, big=50)
            else:
                del out[key]
            encode_only = encode_only or "field"
        elif k == 9:
            fs[src.pick(("x", "comment", "pad", "min_len", "enc", "encoding", "type", "Desc", "length"))] = src.pick((0, None, "b", "nibbles", 5))
        elif k == 10:
            out[src.pick(("b", "66a", "desc", "H", "name", "193", "0"))] = src.pick(({}, {"max_len": 5}, {"data_enc": "b", "len_enc": "b", "len_type": 0, "max_len": 2}))
            key = "unknown entry"
        elif k == 11:
            out = {a: dict(src.shuffle(list(b.items()))) for a, b in src.shuffle(list(out.items()))} if len(out) < 20 else out
            key = "order"
        else:
            continue
        changed.append((k, key))
    return out, changed, encode_only


def outcomes(src):
    spec, doc = gens.spec_and_doc(src, most=5, budget=150)
    res = model.encode(doc, spec, gens.announce(src), gens.recaser(src))
    other, changed, encode_only = irrelevant(src, spec, doc)
    if not changed:
        raise Reject("nothing changed")
    note_case(src, spec, doc, res.wire, other={k: v for k, v in other.items() if spec.get(k) != v})
    for c in changed:
        src.label(f"setting {c[0]}")
    given = gens.litter(src, doc, spec)
    src.note(given=given)
    a, b = encode(dict(given), spec), encode(dict(given), other)
    same_outcome(a, b, f"encode after changing {changed}")
    same_outcome(decode(res.wire, spec), decode(res.wire, other), f"decode after changing {changed}")
    if not encode_only:
        bad = mutate.message(src, spec, res, 2)
        src.note(changed_wire=bad.hex())
        same_outcome(decode(bad, spec), decode(bad, other), f"decode of another message after changing {changed}")
        k = src.pick(list(doc))
        broken = dict(doc)
        if model.is_bin(spec[k]) and model.unit(spec[k]) == "nibbles":
            broken[k] = doc[k][:-2]  # an odd value would make the pads matter
        else:
            broken[k] = src.pick((doc[k][:-1], doc[k] + "0", "", "é", None, doc[k] * 3))
        if isinstance(broken[k], str) and model.is_bin(spec[k]) and len(broken[k]) % 2 and model.unit(spec[k]) == "nibbles":
            raise Reject("odd")
        src.note(changed_value=(k, broken[k]))
        same_outcome(_as_err(encode(dict(broken), spec)), _as_err(encode(dict(broken), other)), f"encode of another dict after changing {changed}")
    src.nontrivial(repr(doc), repr(other))


def _as_err(r):
    return r


def shipped(src):
    """The shipped specifications with other irrelevant settings."""
    spec = src.pick((sut.iso8583.specs.default, sut.iso8583.specs.default_ascii))
    doc = gens.doc_for(src, spec, 6, 50)
    res = model.encode(doc, spec)
    other, changed, encode_only = irrelevant(src, spec, doc)
    src.note(doc=doc, other={k: v for k, v in other.items() if spec.get(k) != v})
    same_outcome(encode(dict(doc), spec), encode(dict(doc), other), f"encode after changing {changed}")
    same_outcome(decode(res.wire, spec), decode(res.wire, other), f"decode after changing {changed}")
    if changed:
        src.nontrivial(repr(doc), repr(changed))


TESTS = [RandomTest("outcomes", outcomes, 28000), RandomTest("shipped-specifications", shipped, 6000)]
