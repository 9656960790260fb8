"""Generated-input search engine used by every check in this directory.

A test is a function of a Src. Every random decision of a case is one Src.draw(n), so a case is the sequence of
drawn integers: it can be replayed exactly, mutated, and shrunk (towards fewer and smaller choices) without the test
knowing. New cases are either drawn afresh from a PRNG seeded by (VERIF_SEED, property, test, shard) or made by mutating
an earlier case that reached a new branch of the code under test (branch events of sys.monitoring), so that the search is
coverage guided and still a pure function of the code and the seed.
"""

import collections
import hashlib
import json
import os
import pickle
import random
import resource
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get("VERIF_REPO", "/repo")
CASE_CPU_S = 20.0


# set by sut: a complaint if what the code under test returned last is not of the documented form (which makes oracles stumble)
malformed_result = None


class Violation(Exception):
    """The property does not hold on this case."""


class Reject(Exception):
    """The generator gave up on this case."""


class Hang(BaseException):
    """The case used CASE_CPU_S seconds of CPU time (cases normally take milliseconds)."""


def fail(msg):
    raise Violation(msg)


class Src:
    __slots__ = ("prefix", "rng", "choices", "bounds", "labels", "notes", "key", "limit")

    def __init__(self, prefix=(), rng=None, limit=200000):
        self.prefix = prefix
        self.rng = rng
        self.choices = []
        self.bounds = []
        self.labels = []
        self.notes = {}
        self.key = None
        self.limit = limit

    def draw(self, n):
        """An integer in [0, n); 0 is the simplest."""
        i = len(self.choices)
        if i < len(self.prefix):
            v = self.prefix[i]
            if v >= n:
                v = v % n if n > 0 else 0
        elif self.rng is not None:
            if i > self.limit:
                raise Reject("too many choices")
            v = int(self.rng.random() * n)
        else:
            v = 0
        self.choices.append(v)
        self.bounds.append(n)
        return v

    def range(self, lo, hi):
        return lo + self.draw(hi - lo + 1)

    def pick(self, seq):
        return seq[self.draw(len(seq))]

    def chance(self, num, den):
        """True num times in den; False is the simplest."""
        return self.draw(den) >= den - num

    def weighted(self, pairs):
        """pairs: ((weight, value), ...), simplest first."""
        total = 0
        for w, _ in pairs:
            total += w
        k = self.draw(total)
        for w, v in pairs:
            if k < w:
                return v
            k -= w
        raise AssertionError

    def shuffle(self, seq):
        """A permutation of seq; unchanged is the simplest."""
        seq = list(seq)
        for i in range(len(seq) - 1):
            j = i + self.draw(len(seq) - i)
            seq[i], seq[j] = seq[j], seq[i]
        return seq

    def label(self, name):
        self.labels.append(name)

    def note(self, **kw):
        self.notes.update(kw)

    def nontrivial(self, *key):
        """Marks the case as non-trivial; key identifies the case when counting distinct ones."""
        self.key = key


class RandomTest:
    def __init__(self, name, fn, quick, thorough=None, guided=True):
        self.name, self.fn, self.guided = name, fn, guided
        self.quick = quick * 5 // 2
        self.thorough = quick * 20 if thorough is None else thorough


class EnumTest:
    """fn is run once for each value 0..total-1 of its first draw; completely, or strided in the quick tier."""

    def __init__(self, name, fn, total, quick_stride=1):
        self.name, self.fn, self.total, self.quick_stride = name, fn, total, quick_stride
        self.guided = False


# ---------------------------------------------------------------------------------------------------------------------
# Coverage of the code under test


class Coverage:
    TOOL = 4

    def __init__(self):
        self.seen = set()
        self.new = False
        self.on = False

    def start(self, codes):
        mon = sys.monitoring
        try:
            mon.use_tool_id(self.TOOL, "verif-pbt")
        except ValueError:
            return
        seen = self.seen
        disable = mon.DISABLE

        def on_branch(code, off, dest):
            arc = (id(code), off, dest)
            if arc not in seen:
                seen.add(arc)
                self.new = True

        def on_line(code, line):
            arc = (id(code), line)
            if arc not in seen:
                seen.add(arc)
                self.new = True
            return disable

        mon.register_callback(self.TOOL, mon.events.BRANCH, on_branch)
        mon.register_callback(self.TOOL, mon.events.LINE, on_line)
        for code in codes:
            mon.set_local_events(self.TOOL, code, mon.events.BRANCH | mon.events.LINE)
        self.on = True

    def take(self):
        new, self.new = self.new, False
        return new


def _on_cpu_limit(signum, frame):
    raise Hang()


def _run_case(fn, src):
    """Returns None (held), or ('violation'|'hang'|'error', message)."""
    signal.setitimer(signal.ITIMER_VIRTUAL, CASE_CPU_S)
    try:
        fn(src)
        return None
    except Violation as e:
        return ("violation", str(e))
    except Reject:
        src.label("rejected-by-generator")
        src.key = None
        return None
    except Hang as e:
        if not _in_repo(e):
            return ("error", "the harness itself hangs:\n" + traceback.format_exc())
        return ("hang", f"a call did not finish within {CASE_CPU_S:.0f} s of CPU time")
    except RecursionError as e:
        return _classify(e)
    except Exception as e:
        return _classify(e)
    finally:
        signal.setitimer(signal.ITIMER_VIRTUAL, 0)


def _in_repo(e):
    """True if the code under test was running."""
    tb = e.__traceback__
    while tb is not None:
        if os.path.realpath(tb.tb_frame.f_code.co_filename).startswith(os.path.join(os.path.realpath(REPO), "iso8583") + os.sep):
            return True
        tb = tb.tb_next
    return False


def _classify(e):
    tb = e.__traceback__
    last = None
    while tb is not None:
        last = tb.tb_frame.f_code.co_filename
        tb = tb.tb_next
    text = "".join(traceback.format_exception(e))
    complaint = malformed_result and malformed_result()
    if complaint:
        return ("violation", complaint)
    if last is not None and os.path.realpath(last).startswith(os.path.join(os.path.realpath(REPO), "iso8583") + os.sep):
        return ("violation", f"{type(e).__name__} raised by the code under test: {e}\n{text[-1500:]}")
    return ("error", text)


def _mutate(rng, entry):
    choices, bounds = entry
    c = list(choices)
    b = bounds
    if not c:
        return c, True
    kind = int(rng.random() * 6)
    if kind <= 2:
        for _ in range(1 + int(rng.random() * 4)):
            i = int(rng.random() * len(c))
            if rng.random() < 0.3:
                c[i] = max(0, c[i] + (1 if rng.random() < 0.5 else -1))
            else:
                c[i] = int(rng.random() * max(1, b[i]))
    elif kind == 3:
        i = int(rng.random() * len(c))
        del c[i : i + 1 + int(rng.random() * 8)]
    elif kind == 4:
        i = int(rng.random() * len(c))
        j = int(rng.random() * len(c))
        c[i:i] = c[j : j + 1 + int(rng.random() * 16)]
    else:
        c = c[: int(rng.random() * len(c))]
    return c, True


def shrink(fn, choices, max_runs=4000, max_s=45.0):
    """Smallest choice sequence found that still violates the property."""
    best = list(choices)
    start, start_wall = time.process_time(), time.monotonic()
    runs = 0

    def still_fails(c):
        nonlocal runs, best
        if runs >= max_runs or time.process_time() - start > max_s or time.monotonic() - start_wall > 2 * max_s:
            return False
        runs += 1
        s = Src(c)
        r = _run_case(fn, s)
        if r is not None and r[0] == "violation":
            got = s.choices
            while got and got[-1] == 0:
                got = got[:-1]
            if len(got) < len(best) or (len(got) == len(best) and got < best):
                best = list(got)
                return True
        return False

    still_fails(best)
    improved = True
    while improved and runs < max_runs and time.process_time() - start <= max_s:
        improved = False
        size = max(1, len(best) // 2)
        while size >= 1:
            i = len(best) - size
            while i >= 0:
                if i < len(best) and still_fails(best[:i] + best[i + size :]):
                    improved = True
                elif i < len(best) and any(best[i : i + size]) and still_fails(
                    best[:i] + [0] * len(best[i : i + size]) + best[i + size :]
                ):
                    improved = True
                i -= max(1, size // 2) if size > 1 else 1
            size //= 2
        for i in range(len(best)):
            if i >= len(best) or best[i] == 0:
                continue
            lo, hi = 0, best[i]
            while lo < hi:
                mid = (lo + hi) // 2
                if still_fails(best[:i] + [mid] + best[i + 1 :]):
                    improved = True
                    hi = mid
                    if i >= len(best):
                        break
                else:
                    lo = mid + 1
    return best


def _search(prop, tests, tier, seed, shard, nshards, codes):
    """Runs the cases of one shard; what happened."""
    out = {
        "evaluations": 0,
        "labels": collections.Counter(),
        "keys": set(),
        "samples": [],
        "per_test": collections.Counter(),
        "guided": 0,
        "corpus": 0,
        "arcs": 0,
        "failure": None,
        "error": None,
        "enum_done": {},
    }
    try:
        resource.setrlimit(resource.RLIMIT_AS, (3 << 30, 3 << 30))
        signal.signal(signal.SIGVTALRM, _on_cpu_limit)
        cov = Coverage()
        if any(t.guided for t in tests):
            cov.start(codes)
        for t in tests:
            if out["failure"] or out["error"]:
                break
            rng = random.Random(f"{seed}/{prop}/{t.name}/{shard}")
            if isinstance(t, EnumTest):
                stride = 1 if tier == "thorough" else t.quick_stride
                plan = range(seed % stride + shard * stride, t.total, nshards * stride)
                out["enum_done"][t.name] = (0, t.total, stride)
            else:
                total = t.thorough if tier == "thorough" else t.quick
                plan = range(shard, total, nshards)
            corpus = []
            n_samples = 0
            for i in plan:
                mutated = False
                if isinstance(t, EnumTest):
                    src = Src([i], rng)
                elif t.guided and corpus and rng.random() < 0.35:
                    k = int(rng.random() * len(corpus))
                    if rng.random() < 0.5:
                        k = len(corpus) - 1 - int(rng.random() * min(8, len(corpus)))
                    c, _ = _mutate(rng, corpus[k])
                    src = Src(c, rng)
                    mutated = True
                    out["guided"] += 1
                else:
                    src = Src((), rng)
                r = _run_case(t.fn, src)
                out["evaluations"] += 1
                out["per_test"][t.name] += 1
                for lab in src.labels:
                    out["labels"][lab] += 1
                if src.key is not None:
                    h = hashlib.blake2b(repr((t.name, src.key)).encode("utf-8", "backslashreplace"), digest_size=8).digest()
                    if h not in out["keys"]:
                        out["keys"].add(h)
                        if n_samples < 2 and shard < 3 and not mutated and len(repr(src.notes)) < 1500:
                            n_samples += 1
                            out["samples"].append({"test": t.name, "case": {k: _short(v) for k, v in src.notes.items()}})
                if r is not None:
                    kind, msg = r
                    if kind == "error":
                        out["error"] = f"test {t.name}, choices {src.choices!r}:\n{msg}"
                    else:
                        choices = src.choices if kind == "hang" else shrink(t.fn, src.choices)
                        out["failure"] = (t.name, kind, list(choices), msg, {"tier": tier, "seed": seed, "shard": shard, "shards": nshards, "case": out["per_test"][t.name]})
                    break
                if t.guided and cov.take() and len(src.choices) < 3000:
                    corpus.append((tuple(src.choices), tuple(src.bounds)))
                    if len(corpus) > 400:
                        del corpus[0]
            out["corpus"] += len(corpus)
        out["arcs"] = len(cov.seen)
    except BaseException:
        out["error"] = traceback.format_exc()
    return out


def _worker(prop, tests, tier, seed, shard, nshards, codes, conn):
    conn.send_bytes(pickle.dumps(_search(prop, tests, tier, seed, shard, nshards, codes)))
    conn.close()
    os._exit(0)


def _short(v, n=700):
    r = repr(v)
    return r if len(r) <= n else r[: n - 20] + f"... ({len(r)} chars)"


def run_check(prop, title, tests, rule, level="exploration", assumptions=(), codes=(), dictionary_size=0, extra=None):
    """Runs the tests, writes evidence, prints the verdict, returns the exit code."""
    import multiprocessing

    seed = int(os.environ.get("VERIF_SEED", "1") or "1")
    tier = os.environ.get("VERIF_TIER", "quick")
    if tier not in ("quick", "thorough"):
        tier = "quick"
    nshards = 8  # fixed, so that the cases do not depend on the machine
    t0 = time.time()
    ctx = multiprocessing.get_context("fork")
    procs = []
    for shard in range(nshards):
        parent, child = ctx.Pipe(False)
        p = ctx.Process(target=_worker, args=(prop, tests, tier, seed, shard, nshards, codes, child))
        p.start()
        child.close()
        procs.append((p, parent))
    results = []
    failure = error = None
    pending = {i: pr for i, pr in enumerate(procs)}
    from multiprocessing.connection import wait

    while pending:
        ready = wait([pr[1] for pr in pending.values()])
        for i in list(pending):
            p, conn = pending[i]
            if conn in ready:
                try:
                    res = pickle.loads(conn.recv_bytes())
                except EOFError:
                    res = None
                p.join()
                del pending[i]
                if res is None:
                    error = error or f"worker {i} died (exit code {p.exitcode})"
                    continue
                results.append(res)
                if res["error"] and not error:
                    error = res["error"]
                if res["failure"] and not failure:
                    failure = res["failure"]
        if failure:
            for p, _ in pending.values():
                p.terminate()
            for p, _ in pending.values():
                p.join()
            break

    labels = collections.Counter()
    per_test = collections.Counter()
    keys = set()
    samples = []
    enum_done = {}
    for r in results:
        labels.update(r["labels"])
        per_test.update(r["per_test"])
        keys |= r["keys"]
        samples += r["samples"]
        for name, (_, total, stride) in r["enum_done"].items():
            enum_done[name] = {"space": total, "stride": stride}
    for name in enum_done:
        enum_done[name]["run"] = per_test[name]
        enum_done[name]["complete"] = per_test[name] == enum_done[name]["space"]
    coverage = {
        "evaluations": sum(r["evaluations"] for r in results),
        "distinct_nontrivial": len(keys),
        "rule": rule,
        "samples": samples[:8],
        "per_test": dict(per_test),
        "labels": dict(sorted(labels.items())),
        "mutated_from_coverage_corpus": sum(r["guided"] for r in results),
        "coverage_corpus_entries": sum(r["corpus"] for r in results),
        "branch_and_line_events_reached_max_per_worker": max([r["arcs"] for r in results] or [0]),
        "dictionary_entries_from_code": dictionary_size,
    }
    if enum_done:
        coverage["enumerated"] = enum_done
    if extra:
        coverage.update(extra)
    violations = 0
    code = 0
    lines = []
    if failure:
        violations = 1
        code = 1
        path = write_replay(prop, tests, failure)
        lines.append(f"property {prop}: {title}")
        lines.append(f"test {failure[0]}: {failure[3][:3000]}")
        lines.append(f"VIOLATION property={prop} replay={path}")
    elif error:
        code = 2
        lines.append(f"harness error in check {prop}:\n{error}")
    evidence = {
        "property": prop,
        "tier": tier,
        "seed": seed,
        "level": level,
        "coverage": coverage,
        "assumptions": list(assumptions),
        "wall_s": round(time.time() - t0, 3),
        "violations": violations,
    }
    os.makedirs(os.path.join(VERIF, "evidence"), exist_ok=True)
    tmp = os.path.join(VERIF, "evidence", f".{prop}.{os.getpid()}.tmp")
    with open(tmp, "w") as f:
        json.dump(evidence, f, indent=1, ensure_ascii=True)
        f.write("\n")
    os.replace(tmp, os.path.join(VERIF, "evidence", f"{prop}.json"))
    for line in lines:
        print(line)
    print(
        f"{prop} {tier} seed={seed}: {coverage['evaluations']} cases, {coverage['distinct_nontrivial']} distinct non-trivial, "
        f"{evidence['wall_s']} s, {'VIOLATED' if violations else 'error' if code else 'held'}"
    )
    sys.stdout.flush()
    return code


def write_replay(prop, tests, failure):
    name, kind, choices, msg, where = failure
    src = Src(choices)
    fn = {t.name: t.fn for t in tests}[name]
    history = None
    if kind == "violation":
        signal.signal(signal.SIGVTALRM, _on_cpu_limit)
        r = _run_case(fn, src)
        if r is None:
            # the case fails only after the cases before it: the replay runs them as well
            history = where
        elif r[0] == "violation":
            msg = r[1]
    os.makedirs(os.path.join(VERIF, "replays"), exist_ok=True)
    digest = hashlib.blake2b(repr((prop, name, choices)).encode(), digest_size=5).hexdigest()
    path = os.path.join(VERIF, "replays", f"{prop}-{digest}.json")
    with open(path, "w") as f:
        json.dump(
            {
                "property": prop,
                "test": name,
                "choices": choices,
                "history": history,
                "message": msg,
                "case": {k: repr(v) for k, v in src.notes.items()},
                "rerun": f"python3 /verif/check.py {prop} --replay {path}",
            },
            f,
            indent=1,
            ensure_ascii=True,
        )
        f.write("\n")
    return path


def replay(prop, title, tests, path, codes=()):
    with open(path) as f:
        rec = json.load(f)
    if rec.get("history"):
        h = rec["history"]
        out = _search(prop, tests, h["tier"], h["seed"], h["shard"], h["shards"], codes)
        if out["error"]:
            print(out["error"])
            return 2
        if not out["failure"]:
            print(f"{prop} held on the replayed shard")
            return 0
        print(f"test {out['failure'][0]}, after {out['failure'][4]['case']} cases: {out['failure'][3]}")
        print(f"VIOLATION property={prop} replay={path}")
        return 1
    fn = {t.name: t.fn for t in tests}[rec["test"]]
    signal.signal(signal.SIGVTALRM, _on_cpu_limit)
    src = Src(rec["choices"])
    r = _run_case(fn, src)
    for k, v in src.notes.items():
        print(f"  {k} = {v!r}")
    if r is None:
        print(f"{prop} held on the replayed case")
        return 0
    print(r[1])
    if r[0] == "error":
        return 2
    print(f"VIOLATION property={prop} replay={path}")
    return 1
