"""M03: failing steps stop the pipeline, are recorded, and surface."""
import functools
import itertools
import pathlib
import shutil
import tempfile

from ..core import CaseHarness, SeqHarness
from ..loader import load
from ..judge import attempt, expect, same, show

LEVEL = "model_checking"
RULE = ("every history of 2-3 executions of every small pipeline (tracked or "
        "not, optional or not, called or iterated) in which each execution "
        "succeeds or fails in every step or send with every kind of "
        "exception; plus every single failure of longer pipelines, replaced "
        "and added steps; the calls made, the result and the whole tracker "
        "history are compared with a reference")
ASSUMPTIONS = [
    "a step that raises StopIteration is outside the claim: Python turns it "
    "into RuntimeError in any generator",
    "trackers are told a scratch directory",
]


class Custom(Exception):
    def __str__(self):
        return "custom text"


class CustomBase(BaseException):
    pass


KINDS = {
    "value": lambda: ValueError("v"), "key": lambda: KeyError("k", 2),
    "custom": Custom, "empty": lambda: Exception(),
    "memory": lambda: MemoryError("m"),
    "int": KeyboardInterrupt, "exit": lambda: SystemExit(3),
    "base": CustomBase,
}
PASSING = ("int", "exit", "base")


class Rig:
    """a pipeline whose steps and sends fail on demand."""

    def __init__(self, names, tracked, optional, outdir):
        self.log, self.fail = [], (None, None)
        self.names = list(names)
        comp = load("composition")
        kwargs = {}
        self.tracker = None
        self.mode = tracked
        if tracked in ("init", "preset"):
            self.tracker = load("tracker").Tracker("t", outdir=outdir)
            kwargs["tracker"] = self.tracker
        if tracked == "trivial":
            kwargs["tracker"] = load("tracker").TrivialTracker()
        if optional is not None:
            kwargs["optional"] = optional
        self.optional = bool(optional)
        self.comp = comp.Composition(
            {n: self.make_step(n, f"f_{n}") for n in names},
            sends={names[0]: [(self.make_pipe("before"), None, None)]},
            name="rig", **kwargs)
        expect(self.comp.name == "rig", "name", lambda:
               f"a Composition named rig is called {self.comp.name!r}")
        if self.tracker is not None:
            expect(self.tracker.name == "rig", "name", lambda:
                   f"the tracker of a Composition named rig is called "
                   f"{self.tracker.name!r}")
        if tracked == "later":
            with scratch_tracker(outdir):
                self.comp.track()
            self.tracker = self.comp.tracker
        if tracked == "twice":
            with scratch_tracker(outdir):
                self.comp.track()
                self.comp.track()
            self.tracker = self.comp.tracker
        # sends that come after those of the tracker
        for n in (names[0], names[-1]):
            self.comp.add_send(n, pipe=self.make_pipe(f"after_{n}"))
        self.targets = {n: f"f_{n}" for n in names}

    def made_to_fail(self, where):
        if self.fail[0] == where:
            self.raised = KINDS[self.fail[1]]()
            raise self.raised

    def make_step(self, name, target):
        def fn(state):
            self.log.append(("step", name, state))
            self.made_to_fail(("step", name))
            return f"{state}>{target}"
        fn.__name__ = target
        return fn

    def make_pipe(self, name):
        def pipe(state):
            self.log.append(("pipe", name, state))
            self.made_to_fail(("pipe", name))
        return pipe

    def points(self):
        return [("step", n) for n in self.names] + [
            ("pipe", "before"), ("pipe", f"after_{self.names[0]}"),
            ("pipe", f"after_{self.names[-1]}")]

    def expected(self, signal):
        """(log, records, failed)"""
        log, records = [], []
        state = signal
        first, last = self.names[0], self.first_last
        for n in self.names:
            log.append(("step", n, state))
            target = self.targets[n]
            if self.fail[0] == ("step", n):
                return log, records + [(n, target, True)], True, None
            state = f"{state}>{target}"
            pipes = []
            if n == first:
                pipes += ["before", None, f"after_{first}"]
            else:
                pipes += [None]
            if n == last:
                pipes += [f"after_{last}"]
            for p in pipes:
                if p is None:
                    records.append((n, target, False))
                    continue
                log.append(("pipe", p, state))
                if self.fail[0] == ("pipe", p):
                    return log, records + [(n, target, True)], True, None
        return log, records, False, state


class scratch_tracker:
    """trackers without an outdir get this one."""

    def __init__(self, outdir):
        self.outdir = outdir

    def __enter__(self):
        cls = load("tracker").Tracker
        self.cls, self.old, outdir = cls, cls.__init__, self.outdir

        @functools.wraps(self.old)
        def init(me, *args, **kwargs):
            if len(args) < 3 and kwargs.get("outdir") is None:
                kwargs["outdir"] = outdir
            self.old(me, *args, **kwargs)
        cls.__init__ = init

    def __exit__(self, *_):
        self.cls.__init__ = self.old


def execute(rig, signal, fail, how):
    """run it once, compare; returns the records that were to be added."""
    rig.fail, rig.raised, rig.log[:] = fail, None, []
    log, records, failed, state = rig.expected(signal)
    before = None if rig.tracker is None else [
        dict(r) for r in rig.tracker.history]
    caught = got = None
    try:
        if how == "iter":
            got = list(rig.comp.itercall(signal))
            got = got[-1]
        else:
            got = (rig.comp if how == "call" else rig.comp.execute)(signal)
    except BaseException as ex:
        if type(ex).__name__ in ("Hang", "Violation"):
            raise
        caught = ex
    what = f"{how} with failure {fail}"
    if not failed:
        expect(caught is None, "raised", f"{what} raised {caught!r}")
        expect(same(got, state), "result", f"{what} returned {got!r}, should "
                                           f"be {state!r}")
    elif rig.optional and fail[1] not in PASSING and how != "iter":
        expect(caught is None, "optional",
               f"{what}: an optional Composition raised {caught!r}")
        expect(got is None, "optional", f"{what}: an optional Composition "
                                        f"returned {got!r}")
    else:
        expect(caught is not None and caught is rig.raised, "surface",
               f"{what}: {rig.raised!r} was raised, but "
               f"{caught!r} surfaced, and {got!r} was returned")
    expect(rig.log == log, "calls", f"{what}: calls were {rig.log}, should be "
                                    f"{log}")
    if rig.tracker is not None:
        hist = rig.tracker.history
        expect(hist[:len(before)] == before, "history",
               f"{what}: earlier records changed to {hist}")
        if failed and (fail[1] in PASSING or how == "iter"):
            # interrupts need not be recorded
            if len(hist) - len(before) < len(records):
                records = records[:-1]
        new = hist[len(before):]
        shown = [(r.get("step"), r.get("target"), r.get("exception"))
                 for r in new]
        expect(len(new) == len(records), "records",
               f"{what}: records added are {shown}, should be {records}")
        for r, (n, target, bad) in zip(new, records):
            ok = r.get("target") == target
            if bad:
                text = str(r.get("exception"))
                ok &= type(rig.raised).__name__ in text
                ok &= str(rig.raised) in text
            else:
                ok &= r.get("step") == n and "exception" not in r
            expect(ok, "records", f"{what}: records added are {shown}, "
                                  f"should be {records}")
    return rig.log, got


class Histories(SeqHarness):
    name = "executions"
    direct = True
    merge = False

    def prepare(self):
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="mc-m03-"))

    def explore(self, tier, report, *args):
        try:
            super().explore(tier, report, *args)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def depth(self, tier):
        return 3 if tier == "quick" else 4

    def ops(self, tier):
        ops = [("new", size, tracked, optional)
               for size in (1, 2, 3)
               for tracked in ("no", "init", "later", "twice", "trivial")
               for optional in (None, True, False)
               if size == 2 or tracked in ("no", "init")]
        kinds = list(KINDS) if tier == "quick" else ["custom", "key", "int"]
        points = [("step", 0), ("step", 1), ("step", 2), ("pipe", "before"),
                  ("pipe", "after_0"), ("pipe", "after_1")]
        ops += [("exec", None, None), ("call", None, None),
                ("iter", None, None)]
        for i, (point, kind) in enumerate(itertools.product(points, kinds)):
            ops.append((("exec", "exec", "call")[i % 3], point, kind))
        ops += [("iter", ("step", 1), "key"),
                ("step", "replace"), ("step", "new")]
        return ops

    def world(self):
        class World:
            rig = None
        return World()

    def enabled(self, w, op):
        if op[0] == "new":
            return w.rig is None
        if w.rig is None:
            return False
        if op[0] in ("exec", "call", "iter") and op[1] is not None:
            return op[1] in w.rig.points()
        return True

    def step(self, w, op):
        w.outcome = None
        if op[0] == "new":
            w.rig = Rig(range(op[1]), op[2], op[3], self.dir)
            w.rig.first_last = w.rig.names[-1]
            return
        rig = w.rig
        if op[0] == "step":
            if op[1] == "replace":
                name, target = 0, "other"
            else:
                name, target = f"n{len(rig.names)}", "another"
                rig.names.append(name)
            rig.targets[name] = target
            rig.comp.add_step(rig.make_step(name, target), name)
            return
        w.outcome = execute(rig, "s", (op[1], op[2]), op[0])

    def audit(self, w):
        # it can be executed again
        if w.rig is not None:
            execute(w.rig, "again", (None, None), "exec")

    def canon(self, w):
        rig = w.rig
        return (rig.mode, rig.optional, rig.names, rig.targets, w.outcome,
                rig.tracker and [
                    (r["target"], r.get("exception"), r["trackcount"])
                    for r in rig.tracker.history])


RETURNED = {
    "value": ValueError("returned"), "key": KeyError("k"), "empty": Exception(),
    "interrupt": KeyboardInterrupt(), "exit": SystemExit(1),
    "stop": StopIteration(), "class": ValueError, "none": None,
    "false": False, "text": "Traceback (most recent call last)",
}


class Returned(CaseHarness):
    """what a step returns is never a failure, even if it is an exception"""
    name = "returned"

    def cases(self, tier):
        few = sorted(RETURNED)
        for n in (1, 2, 3) if tier == "thorough" else (1, 2):
            for values in itertools.product(few, repeat=n):
                for tracked in (False, True):
                    for optional in (False, True):
                        for fails in (None, *range(n)):
                            yield values, tracked, optional, fails

    def prepare(self):
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="mc-m03-"))

    def explore(self, tier, report, *args):
        try:
            super().explore(tier, report, *args)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, case):
        values, tracked, optional, fails = case
        raised, calls = ValueError("raised"), []

        def step(i):
            def fn(state):
                calls.append((i, state))
                if fails == i:
                    raise raised
                return RETURNED[values[i]]
            fn.__name__ = f"f{i}"
            return fn
        tracker = load("tracker").Tracker("t", outdir=self.dir) \
            if tracked else None
        comp = load("composition").Composition(
            [step(i) for i in range(len(values))], tracker=tracker,
            optional=optional)
        got = attempt(comp.execute, RETURNED[values[-1]])
        last = len(values) - 1 if fails is None else fails
        before = [RETURNED[v] for v in (values[-1], *values)]
        ok = [c[0] for c in calls] == list(range(last + 1)) and all(
            c[1] is b for c, b in zip(calls, before))
        expect(ok, "calls", lambda: f"{case}: the calls were {calls}")
        if fails is None:
            ok = got[0] == "ok" and got[1] is RETURNED[values[-1]]
        elif optional:
            ok = got == ("ok", None)
        else:
            ok = got[0] != "ok" and got[1] is raised
        expect(ok, "result", lambda: f"{case}: {show(got)}")
        if tracked:
            shown = [(r.get("target"), "exception" in r)
                     for r in tracker.history]
            want = [(f"f{i}", i == fails) for i in range(last + 1)]
            expect(shown == want, "records", lambda: f"{case}: records are "
                   f"{shown}, should be {want}")
        return case, True


class Nested(Returned):
    """a step that executes the same Composition, and failures in either."""
    name = "nested"

    def cases(self, tier):
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4):
            for at in range(n):
                fails = [None] + [(level, i) for level in (0, 1)
                                  for i in range(n)]
                for one, two in itertools.product(fails, repeat=2):
                    if one == two and one is not None:
                        continue
                    for optional in (False, True):
                        for caught in (False, True):
                            for how in ("exec", "iter"):
                                yield n, at, one, two, optional, caught, how

    def run(self, case):
        n, at, one, two, optional, caught, how = case
        fails = {f for f in (one, two) if f is not None}
        tracker = load("tracker").Tracker("t", outdir=self.dir)
        level, records = [0], []

        def call(signal):
            level[0] += 1
            try:
                if how == "exec":
                    return comp.execute(signal)
                return list(comp.itercall(signal))[-1]
            finally:
                level[0] -= 1

        def body(i):
            def step(x):
                if i == at and level[0] == 0:
                    try:
                        call("inner")
                    except ValueError:
                        if not caught:
                            raise
                if (level[0], i) in fails:
                    raise ValueError(level[0], i)
                return x
            step.__name__ = f"step_{i}"
            return step

        def expected(depth):
            for i in range(n):
                try:
                    if i == at and depth == 0:
                        try:
                            expected(1)
                        except ValueError:
                            # only execute() records and swallows
                            if not caught and not (optional
                                                   and how == "exec"):
                                raise
                    if (depth, i) in fails:
                        raise ValueError(depth, i)
                except ValueError as ex:
                    if depth == 0 or how == "exec":
                        records.append((f"step_{i}", str(ex)))
                    raise
                records.append((f"step_{i}", None))

        comp = load("composition").Composition(
            [body(i) for i in range(n)], tracker=tracker, optional=optional)
        got = attempt(comp.execute, "outer")
        try:
            expected(0)
            want = ("ok", "outer")
        except ValueError as ex:
            want = ("ok", None) if optional else ("ValueError", str(ex))
        expect((got[0], got[1] if got[0] == "ok" else str(got[1])) == want,
               "result", f"{case}: {show(got)}, should be {want}")
        seen = [(r["target"].split(".")[-1], r.get("exception"))
                for r in tracker.history]
        expect(len(seen) == len(records) and all(
            s[0] == r[0] and (s[1] is None) == (r[1] is None)
            and (r[1] is None or r[1] in s[1])
            for s, r in zip(seen, records)), "records",
            f"{case}: recorded {seen}, should be {records}")
        return (want[0], len(records)), bool(fails)


def harnesses(tier):
    return [Histories(), Returned(), Nested()]
