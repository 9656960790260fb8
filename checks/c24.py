import contextlib
import copy
import decimal
import io
import sys

from checks.printing import *
from pbt.engine import RandomTest

RULE = (
    "dictionaries with any contents are printed to streams that only have a write method, to falsy streams, and to whatever sys.stdout is at the time; "
    "arguments are compared before and after, and texts across streams, insertion orders and repetitions. Non-trivial: something was printed; counted "
    "per distinct print-out"
)
ASSUMPTIONS = ("entries of other types than str, bytes and dict have a repr",)


class Only:
    """Nothing but write."""

    __slots__ = ("out",)

    def __init__(self):
        self.out = []

    def write(self, s):
        if type(s) is not str:
            fail(f"pp wrote a {type(s).__name__}: {s!r}")
        self.out.append(s)

    @property
    def text(self):
        return "".join(self.out)

    def __getattr__(self, name):
        fail(f"pp used {name!r} of the stream")


class Falsy(Only):
    def __bool__(self):
        return False


class Empty(Only):
    def __len__(self):
        return 0


class Partial(Only):
    """write returns what it likes."""

    def write(self, s):
        super().write(s)
        return 0


class Forbidden:
    def write(self, s):
        fail(f"pp wrote {s!r} to sys.stdout although a stream was given")

    def flush(self):
        pass


@contextlib.contextmanager
def stdout_is(stream):
    old = sys.stdout
    sys.stdout = stream
    try:
        yield
    finally:
        sys.stdout = old


def call(doc, spec, *args, **kw):
    try:
        r = sut.iso8583.pp(doc, spec, *args, **kw)
    except Exception as e:
        if type(e).__name__ == "Violation":
            raise
        fail(f"pp raised {sut.text_of_exc(e)}")
    if r is not None:
        fail(f"pp returned {r!r}")


def printed(src):
    doc, spec, kind = make_doc(src)
    dw, lw = gens.widths(src)
    src.note(doc=doc, desc_width=dw, line_width=lw)
    doc_before, spec_before = copy.deepcopy(doc), copy.deepcopy(spec)
    cls = src.pick((Only, Falsy, Empty, Partial))
    src.label("stream: " + cls.__name__)
    with stdout_is(Forbidden()):
        a = cls()
        call(doc, spec, dw, a, lw)
        b = io.StringIO()
        call(doc, spec, desc_width=dw, line_width=lw, stream=b)
    if a.text != b.getvalue():
        fail(f"one stream got {short(a.text)}, another {short(b.getvalue())}")
    # sys.stdout as it is at the time of the call
    for how in ("replaced", "redirected", "None"):
        c = src.pick((Only, io.StringIO, Falsy))()
        if how == "replaced":
            with stdout_is(c):
                call(doc, spec, dw, line_width=lw)
        elif how == "redirected":
            with contextlib.redirect_stdout(c):
                call(doc, spec, dw, line_width=lw)
        else:
            with stdout_is(c):
                call(doc, spec, dw, None, lw)
        got = c.getvalue() if isinstance(c, io.StringIO) else c.text
        if got != a.text:
            fail(f"sys.stdout ({how}) got {short(got)}, a stream gets {short(a.text)}")
    if not same(doc, doc_before) or list(doc) != list(doc_before):
        fail(f"pp changed the dictionary from {short(doc_before)} to {short(doc)}")
    if not same(spec, spec_before):
        fail(f"pp changed the specification from {short(spec_before)} to {short(spec)}")
    other = dict(src.shuffle(list(doc.items())))
    d = Only()
    call(other, spec, dw, d, lw)
    if d.text != a.text:
        fail(f"in another insertion order pp prints {short(d.text)} instead of {short(a.text)}")
    if a.text:
        src.nontrivial(a.text, cls.__name__)


class Weird:
    def __repr__(self):
        return "<weird>"


ODD = (
    None, 0, 12345, -1, 2.5, True, [], ["a", "b"], [1] * 60, (), ("x",), {1, 2}, frozenset(), bytearray(b"0200"), bytearray(b"A" * 100), decimal.Decimal("1.50"),
    range(5), Ellipsis, 1j, 10**100, Weird(), memoryview, {"a"}, [b"x" * 90],
)  # fmt: skip


def odd_entries(src):
    doc, spec, kind = make_doc(src, plain=True)
    keys = order(doc, spec)
    if not keys:
        raise Reject("empty")
    dw, lw = gens.widths(src)
    odd = {}
    for _ in range(1 + src.draw(3)):
        k = src.pick(keys)
        odd[k] = src.pick(ODD)
    changed = dict(doc)
    changed.update(odd)
    src.note(doc=changed, desc_width=dw, line_width=lw)
    before = dict(changed)
    text = sut.pp(changed, spec, desc_width=dw, line_width=lw)
    if changed.keys() != before.keys() or any(changed[k] is not before[k] for k in before):
        fail(f"pp changed the dictionary from {short(before)} to {short(changed)}")
    want = render(changed, spec, dw, lw)
    if text != want:
        fail(f"printed {short(text)}, expected {short(want)}")
    for v in odd.values():
        src.label(type(v).__name__)
    src.nontrivial(text)


def incomplete_entries(src):
    """Encoded entries that lack 'len' or 'data' print as if these were empty."""
    doc, spec, kind = make_doc(src, kinds=("enc",))
    keys = order(doc, spec)
    if not keys:
        raise Reject("empty")
    full, part = dict(doc), dict(doc)
    for k in keys:
        n = src.draw(4)
        if n == 1:
            full[k] = {"len": b"", "data": doc[k]["data"]}
            part[k] = {"data": doc[k]["data"]}
        elif n == 2:
            full[k] = {"len": doc[k]["len"], "data": b""}
            part[k] = {"len": doc[k]["len"]}
        elif n == 3:
            full[k] = {"len": b"", "data": b""}
            part[k] = {}
    src.note(doc=part)
    before = copy.deepcopy(part)
    a, b = sut.pp(full, spec), sut.pp(part, spec)
    if not same(part, before) or list(part) != list(before):
        fail(f"pp changed the dictionary from {short(before)} to {short(part)}")
    if a != b:
        fail(f"incomplete entries print {short(b)}, complete ones {short(a)}")
    src.nontrivial(b)


class Breaks(Exception):
    pass


class Stops(BaseException):
    pass


FAILURES = (
    Breaks, Stops, OSError, BrokenPipeError, ConnectionResetError, BlockingIOError, TimeoutError, InterruptedError, io.UnsupportedOperation, ValueError, TypeError,
    KeyError, IndexError, LookupError, AttributeError, NotImplementedError, AssertionError, StopIteration, EOFError, RecursionError, RuntimeError, MemoryError,
    OverflowError, UnicodeError, UserWarning, KeyboardInterrupt, SystemExit, GeneratorExit,
    lambda: UnicodeEncodeError("ascii", "\xe9", 0, 1, "ordinal not in range"),
    lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "invalid"),
    lambda: BrokenPipeError(32, "Broken pipe"),
    lambda: OSError(28, "No space left on device"),
    lambda: sut.iso8583.EncodeError("x", {}, {}, "2"),
    lambda: sut.iso8583.DecodeError("x", b"", {}, {}, 0, "2"),
)  # fmt: skip


class Failing(Only):
    __slots__ = ("left", "error", "over")

    def __init__(self, n, error):
        super().__init__()
        self.left, self.error, self.over = n, error, False

    def write(self, s):
        if self.over:
            fail(f"pp wrote {s!r} to a stream that had failed")
        if self.left <= 0:
            self.over = True
            raise self.error
        self.left -= 1
        super().write(s)


def failing_stream(src):
    """A stream that fails in the middle: its exception reaches the caller, and the next call is not affected."""
    doc, spec, kind = make_doc(src)
    want = sut.pp(doc, spec)
    n = src.draw(30)
    error = src.pick(FAILURES)()
    src.note(doc=doc, writes_before_failure=n, failure=repr(error))
    f = Failing(n, error)
    before = copy.deepcopy(doc)
    given = src.chance(1, 2)
    got = None
    try:
        if given:
            sut.iso8583.pp(doc, spec, stream=f)
        else:
            with stdout_is(f):
                sut.iso8583.pp(doc, spec)
    except BaseException as e:
        if type(e).__name__ in ("Violation", "Hang"):
            raise
        got = e
    if got is not (error if f.over else None):
        fail(f"the stream {'failed with ' + repr(error) if f.over else 'did not fail'}, pp {'raised ' + sut.text_of_exc(got) if got is not None else 'returned'}")
    if f.over:
        src.label("failed with " + type(error).__name__)
        if not want.startswith(f.text):
            fail(f"before the failure pp wrote {short(f.text)}, expected a start of {short(want)}")
    else:
        src.label("enough writes")
        if f.text != want:
            fail(f"pp wrote {short(f.text)}, expected {short(want)}")
    if not same(doc, before):
        fail("pp changed the dictionary when the stream failed")
    again = sut.pp(doc, spec)
    if again != want:
        fail(f"after a failing stream pp prints {short(again)} instead of {short(want)}")
    src.nontrivial(want, n)


TESTS = [
    RandomTest("printed", printed, 14000),
    RandomTest("odd-entries", odd_entries, 12000),
    RandomTest("incomplete-entries", incomplete_entries, 6000),
    RandomTest("failing-stream", failing_stream, 6000),
]
