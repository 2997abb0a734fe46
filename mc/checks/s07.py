"""S07: a pool returns every call's result or exception under its key."""
import itertools
import time

import numpy as np

from .. import simpool
from ..core import CaseHarness, SeqHarness
from ..judge import expect, same, show
from ..loader import load

LEVEL = "model_checking"
RULE = ("every history of mapping (outcome patterns x chunking x keys), "
        "completions of running calls in every order the workers allow, "
        "progress queries and collections, with no pool and with a simulated "
        "pool of 1-3 workers, up to the stated depth; every outcome pattern "
        "of up to 4 calls through map_into_pool; a share of the patterns on "
        "real worker processes")
ASSUMPTIONS = [
    "records and results can be pickled; no two records have the same key",
    "instead of an exception that can't be sent between processes there may "
    "be another",
    "calls return (or raise) and return no exception objects",
]

LOG = []


class Failure(Exception):
    def __init__(self, ix):
        super().__init__(ix)
        self.ix = ix


class Unsendable(Exception):
    """can't be pickled"""
    def __init__(self, ix):
        super().__init__(ix)
        self.why = lambda: ix


class Unreadable(Exception):
    """can be pickled, but that can't be undone"""
    def __init__(self, ix, extra):
        super().__init__(f"{ix}, {extra}")


def call(ix, what, extra=None):
    LOG.append(ix)
    if what == "u":
        raise Unsendable(ix)
    if what == "l":
        raise Unreadable(ix, extra)
    if what == "e":
        raise ValueError(ix, extra)
    if what == "f":
        raise Failure(ix)
    if what == "s":
        raise StopIteration(ix)
    if what == "n":
        return None
    if what == "a":
        return np.array([[ix, 1.5]])
    if what == "d":
        return {0: "x", "k0": ix}
    return [ix, extra]


def slow_call(ix, what, extra=None):
    if what != "e":
        time.sleep(0.002 * (5 - ix))
    return call(ix, what, extra)


def records(pattern, keys):
    recs = []
    for i, what in enumerate(pattern):
        rec = {"args": (i, what)}
        if i % 2:
            rec = {"args": (i,), "kwargs": {"what": what, "extra": "x"}}
        if keys == "named" or keys == "mixed" and i % 2 == 0:
            rec["key"] = f"k{i}"
        elif keys == "odd":
            rec["key"] = [None, "", 10, ("t", 1)][i]
        recs.append(rec)
    return recs


def wanted(pattern, keys):
    """key -> ('ok', value) or ('raised', exception)"""
    out = {}
    for i, what in enumerate(pattern):
        extra = "x" if i % 2 else None
        key = i
        if keys == "named" or keys == "mixed" and i % 2 == 0:
            key = f"k{i}"
        elif keys == "odd":
            key = [None, "", 10, ("t", 1)][i]
        if what == "e":
            out[key] = ValueError(i, extra)
        elif what == "f":
            out[key] = Failure(i)
        elif what == "s":
            out[key] = StopIteration(i)
        elif what in "ul":
            out[key] = Exception(what)
        elif what == "a":
            out[key] = np.array([[i, 1.5]])
        elif what == "d":
            out[key] = {0: "x", "k0": i}
        else:
            out[key] = None if what == "n" else [i, extra]
    return out


def agrees(got, want):
    if isinstance(want, Exception):
        if type(want) is Exception:
            return isinstance(got, Exception)  # it may have to be another
        return type(got) is type(want) and got.args == want.args
    return same(got, want)


def all_agree(got, want):
    return (isinstance(got, dict) and set(map(repr, got)) ==
            set(map(repr, want)) and len(got) == len(want)
            and all(agrees(got[k], want[k]) for k in want))


def attempt(fn, *args, **kwargs):
    try:
        return "ok", fn(*args, **kwargs)
    except Exception as ex:
        return type(ex).__name__, ex


class Histories(SeqHarness):
    """maps, completions and collections in every order."""
    name = "histories"

    def depth(self, tier):
        return 6 if tier == "quick" else 7

    def ops(self, tier):
        ops = [("new", t) for t in (None, 1, 2, 3)]
        patterns = ["", "o", "e", "oe", "eo", "ef", "oeo", "eon"]
        if tier == "thorough":
            patterns += ["n", "ooo", "oof", "foe", "oeoe"]
        ops += [("map", p, chunks, keys) for p in patterns
                for chunks in (False, True) for keys in ("none", "mixed")
                if keys == "none" or len(p) > 1]
        ops += [("finish", j) for j in range(3)]
        ops += [("get", False), ("get", True), ("close",)]
        return ops

    def world(self):
        class World:
            pool = None
            sim = None
            pattern = None
        self.patch = simpool.installed(load("structures"))
        self.patch.__enter__()
        LOG.clear()
        return World()

    def dispose(self, w):
        self.patch.__exit__()

    def enabled(self, w, op):
        if (op[0] == "new") != (w.pool is None):
            return False
        if op[0] == "finish":
            return w.sim is not None and op[1] < w.sim.running()
        if op[0] == "map":
            return not w.closed
        if op[0] == "get":
            return w.pattern is not None
        return True

    def step(self, w, op):
        w.outcome = None
        if op[0] == "new":
            w.threads = op[1]
            made = attempt(load("structures").MaybePool,
                           *([] if op[1] is None else [op[1]]))
            expect(made[0] == "ok", "new", f"{op}: {show(made)}")
            w.pool, w.closed = made[1], False
            w.sim = simpool.POOLS[-1] if simpool.POOLS else None
            expect((w.sim is None) == (op[1] is None), "workers",
                   f"{op} made pools {simpool.POOLS}")
        elif op[0] == "map":
            _, w.pattern, w.chunks, w.keys = op
            LOG.clear()
            w.from_before = 0 if w.sim is None else len(w.sim.queue)
            got = attempt(w.pool.map, call, records(w.pattern, w.keys),
                          as_chunks=w.chunks)
            expect(got[0] == "ok", "map", f"{op}: {show(got)}")
            w.submitted = [] if w.sim is None else [
                r for _, r in w.sim.queue[w.from_before:]]
        elif op[0] == "finish":
            w.sim.finish(op[1])
        elif op[0] == "get":
            self.get(w, op[1])
        elif op[0] == "close":
            w.pool.close()
            w.closed = True
        self.progress(w, op)

    def progress(self, w, op):
        if w.pattern is None:
            return
        ready = attempt(w.pool.ready)
        counts = [attempt(lambda: getattr(w.pool, n))
                  for n in ("n_results", "n_ready", "n_running")]
        each = attempt(w.pool.results_ready)
        if w.sim is None:
            flags = [True] * len(w.pattern)
        else:
            flags = [r.ready() for r in w.submitted]
            if not w.chunks:
                expect(len(flags) == len(w.pattern), "submitted",
                       f"{len(flags)} calls of {len(w.pattern)} were "
                       "submitted")
        done = sum(flags)
        expect(ready == ("ok", all(flags)), "progress",
               f"after {op} ready() is {show(ready)}, finished are {flags}")
        expect([c[1] for c in counts] == [len(flags), done,
                                          len(flags) - done], "progress",
               f"after {op} n_results, n_ready, n_running are "
               f"{[show(c) for c in counts]}, finished are {flags}")
        expect(each[0] == "ok" and list(each[1].values()) == flags,
               "progress", f"after {op} results_ready() is {show(each)}, "
                           f"finished are {flags}")
        if not w.chunks or w.sim is None:
            expect(list(each[1]) == list(wanted(w.pattern, w.keys)),
                   "progress", f"results_ready() is {show(each)}")

    def get(self, w, raise_exc):
        want = wanted(w.pattern, w.keys)
        first = next((v for v in want.values() if isinstance(v, Exception)),
                     None)
        got = attempt(w.pool.get, *([True] if raise_exc else []))
        what = f"get({raise_exc}) of {w.pattern!r} ({w.keys}, chunks " \
               f"{w.chunks}, threads {w.threads})"
        if raise_exc and first is not None:
            expect(got[0] != "ok" and agrees(got[1], first), "raise_exc",
                   f"{what}: {show(got)}, should raise {first!r}")
        else:
            expect(got[0] == "ok" and all_agree(got[1], want), "results",
                   f"{what}: {show(got)}, should be {want!r}")
        w.outcome = repr(got)

    def audit(self, w):
        if w.pattern is None:
            return
        self.get(w, False)
        if not (w.sim and w.from_before):
            expect(sorted(LOG) == list(range(len(w.pattern))), "calls",
                   f"calls made: {LOG}, should be once each of "
                   f"{len(w.pattern)}")
        self.get(w, True)
        self.get(w, False)
        w.pool.close()
        got = attempt(w.pool.join)
        expect(got[0] == "ok", "join", f"join: {show(got)}")
        w.pool.terminate()
        got = attempt(w.pool.get)
        expect(got == ("ok", {}), "terminated",
               f"get() after terminate() is {show(got)}, should be empty")

    def canon(self, w):
        if w.pattern is None:
            return repr((w.threads, w.closed))
        return repr((w.threads, w.closed, w.pattern, w.chunks, w.keys,
                     w.from_before, w.sim and [
                         i for i, r in enumerate(w.submitted) if r.ready()],
                     w.sim and len(w.sim.queue)))


class Patterns(CaseHarness):
    """map_into_pool on every outcome pattern and completion order."""
    name = "map_into_pool"

    def cases(self, tier):
        longest = 4 if tier == "quick" else 6
        for n in range(longest + 1):
            for pattern in itertools.product(
                    "oenfasdul" if n < 3 else "oeful" if n < 4 else "oe",
                    repeat=n):
                for threads in (None, 1, 2, 3, 5):
                    for chunks in (None, False, True):
                        for filtered in (False, True):
                            for keys in ("none", "named", "mixed", "odd"):
                                if keys == "odd" and n > 4:
                                    continue
                                yield ("".join(pattern), threads, chunks,
                                       filtered, keys)

    def run(self, case):
        pattern, threads, chunks, filtered, keys = case
        struct = load("structures")
        LOG.clear()
        kwargs = {} if chunks is None else {"as_chunks": chunks}
        if filtered:
            kwargs["filter_exc"] = True
        with simpool.installed(struct):
            got = attempt(struct.map_into_pool, call, records(pattern, keys),
                          threads, **kwargs)
        self.judge_results(case, got)
        expect(sorted(LOG) == list(range(len(pattern))), "calls",
               f"{case}: calls made {LOG}")
        return repr(got), len(set(pattern)) > 1

    @staticmethod
    def judge_results(case, got):
        pattern, threads, chunks, filtered, keys = case
        want = wanted(pattern, keys)
        if filtered:
            want = {k: v for k, v in want.items()
                    if not isinstance(v, Exception)}
        expect(got[0] == "ok" and all_agree(got[1], want), "results",
               f"{case}: {show(got)}, should be {want!r}")


def echo(*args, **kwargs):
    LOG.append((args, kwargs))
    if "boom" in kwargs:
        raise ValueError(args, kwargs)
    return args, kwargs


class Shapes(CaseHarness):
    """records of every shape, mapped twice; some are one and the same
    object."""
    name = "record-shapes"

    @staticmethod
    def menu():
        return [
            {}, {"args": (1,)}, {"kwargs": {"a": 1}},
            {"args": [2, None], "kwargs": {"b": [2]}},
            {"key": "k", "args": (3,)}, {"key": "", "kwargs": {"a": 4}},
            {"kwargs": {"boom": 1}}, {"args": (), "kwargs": {}},
            {"key": ("t", 1), "args": (5, 6), "kwargs": {"c": 7}},
        ]

    def cases(self, tier):
        n = len(self.menu())
        lists = [c for k in range(4)
                 for c in itertools.product(range(n), repeat=k)
                 if all(c.count(i) < 2 for i in (4, 5, 8))]
        for one in lists:
            for threads in (None, 1, 2, 3):
                for chunks in (False, True):
                    yield one, None, threads, chunks
        short = [c for c in lists if len(c) < (3 if tier == "quick" else 4)]
        for one in short:
            for two in short:
                if len(one) + len(two) > (3 if tier == "quick" else 5):
                    continue
                for threads, chunks in ((None, False), (2, True), (2, False)):
                    yield one, two, threads, chunks

    def run(self, case):
        one, two, threads, chunks = case
        struct = load("structures")
        menu = self.menu()
        shown = []
        with simpool.installed(struct):
            for chosen in (one,) if two is None else (one, two):
                want = {}
                for i, c in enumerate(chosen):
                    rec = self.menu()[c]
                    args = tuple(rec.get("args", ()))
                    kwargs = rec.get("kwargs", {})
                    want[rec.get("key", i)] = (
                        ValueError(args, kwargs) if "boom" in kwargs
                        else (args, kwargs))
                LOG.clear()
                got = attempt(struct.map_into_pool, echo,
                              [menu[c] for c in chosen], threads,
                              as_chunks=chunks)
                expect(got[0] == "ok" and all_agree(got[1], want), "results",
                       lambda: f"{case}: records "
                       f"{[self.menu()[c] for c in chosen]} "
                       f"returned {show(got)}, should be {want!r}")
                expect(len(LOG) == len(chosen), "calls",
                       f"{case}: calls made {LOG}")
                shown.append(repr(got))
        return shown, True


class Real(Patterns):
    """the same on real worker processes."""
    name = "real-pool"
    budget = 300

    def cases(self, tier):
        patterns = ["", "o", "e", "oe", "eon", "feoo", "ads", "ou", "lo",
                    "oulo"]
        if tier == "thorough":
            patterns += ["eeee", "onoe", "oeoeo", "foooof"]
        for pattern in patterns:
            for threads in (1, 2, 3):
                for chunks in (False, True):
                    yield (pattern, threads, chunks, len(pattern) % 2 == 0,
                           "mixed")

    def run(self, case):
        pattern, threads, chunks, filtered, keys = case
        got = attempt(load("structures").map_into_pool, slow_call,
                      records(pattern, keys), threads, filtered, chunks)
        self.judge_results(case, got)
        return repr(got), True

    def explore(self, tier, report, *args):
        before = report.evaluations
        super().explore(tier, report, *args)
        report.traces += report.evaluations - before


def harnesses(tier):
    return [Histories(), Patterns(), Shapes(), Real()]
