"""What the package still holds after its calls are over."""

import collections.abc
import gc
import sys
import types

from pbt import sut

_SKIP = (types.FrameType, types.CodeType, types.BuiltinFunctionType, types.GetSetDescriptorType, types.MemberDescriptorType, types.WrapperDescriptorType)
gc.collect()
gc.freeze()  # what exists by now is found through the package's modules; what comes later is tracked


def _foreign(o):
    if isinstance(o, types.ModuleType):
        return not (o.__name__ == "iso8583" or o.__name__.startswith("iso8583."))
    if isinstance(o, type):
        return not o.__module__.startswith("iso8583")
    if isinstance(o, _SKIP):
        return True
    if isinstance(o, types.FunctionType):
        return not (o.__module__ or "").startswith("iso8583")
    return False


_outside = {id(vars(sys.modules["builtins"])), id(sys.modules), id(vars(sys))}


def strings():
    """Every text and byte string reachable from the modules of the package."""
    todo = list(sut._modules())
    seen = set()
    out = []
    while todo:
        o = todo.pop()
        if isinstance(o, (str, bytes, bytearray)):
            out.append(o)
            continue
        if o is None or isinstance(o, (int, float)) or id(o) in seen or id(o) in _outside or _foreign(o):
            continue
        seen.add(id(o))
        todo += gc.get_referents(o)
    return out


def later_strings():
    """Text and byte strings directly held by containers that came into being after this module was imported and are not
    part of the harness: thread-local dictionaries, say. The caller passes over its own."""
    out = []
    for o in gc.get_objects():
        if type(o) is dict:
            for v in o.values():
                if isinstance(v, (bytearray, bytes)):
                    out.append(v)
    return out


class Text(str):
    """A str that can be watched by a weak reference."""


class Changing(bytearray):
    pass


class Doc(dict):
    pass


class Out:
    def __init__(self):
        self.n = 0

    def write(self, s):
        self.n += 1
        return len(s)


_base = "\n".join(s if isinstance(s, str) else bytes(s).decode("latin-1") for s in strings())


def known(text):
    """Whether the source text of the package holds this string anyway."""
    return text in _base
