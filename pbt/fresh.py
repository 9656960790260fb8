"""The package as a fresh process sees it: every module executed anew, sharing no state with the copy used so far."""

import builtins
import importlib.machinery
import importlib.util
import io
import os
import sys
import types

from pbt.engine import REPO

_codes = {}
_deny = None


class _Loader(importlib.machinery.SourceFileLoader):
    def get_code(self, fullname):
        code = _codes.get(self.path)
        if code is None:
            code = _codes[self.path] = compile(self.get_data(self.path), self.path, "exec", dont_inherit=True)
        return code


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "iso8583" and not name.startswith("iso8583."):
            return None
        base = os.path.join(REPO, *name.split("."))
        if os.path.isdir(base):
            f = os.path.join(base, "__init__.py")
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f), submodule_search_locations=[base])
        f = base + ".py"
        if os.path.exists(f):
            return importlib.util.spec_from_file_location(name, f, loader=_Loader(name, f))
        return None


def package():
    """A newly executed iso8583 package (with its submodules), not entered in sys.modules."""
    saved = {n: m for n, m in sys.modules.items() if n == "iso8583" or n.startswith("iso8583.")}
    for n in saved:
        del sys.modules[n]
    finder = _Finder()
    sys.meta_path.insert(0, finder)
    try:
        import iso8583
        import iso8583.specs

        return iso8583
    finally:
        sys.meta_path.remove(finder)
        for n in [n for n in sys.modules if n == "iso8583" or n.startswith("iso8583.")]:
            del sys.modules[n]
        sys.modules.update(saved)
