"""T01: calls made in child processes come back."""
import itertools
import multiprocessing
import os
import time

from .. import simproc
from ..core import CaseHarness, Hang, Report, digest, with_alarm
from ..judge import expect, same, show
from ..loader import load

LEVEL = "model_checking"
RULE = ("every schedule of the calling process and its children, for every "
        "function of a menu (returning, raising, exiting; results smaller and "
        "larger than a pipe holds), for single, successive and simultaneous "
        "calls; the same calls with real processes")
ASSUMPTIONS = [
    "children are forked; pipes hold a fixed number of bytes",
    "an exception and the returning of an exception are not told apart, as by "
    "the code",
]


class Odd(Exception):
    def __eq__(self, other):
        return type(other) is Odd and other.args == self.args


def raises(ex):
    raise ex


def gather(*args, **kwargs):
    return args, kwargs


def changes(target):
    target.append(1)
    return target


def leave(code):
    raise SystemExit(code)


BIG = 300000      # more than pipes hold, simulated or real
CALLS = {
    "none": (gather, (), {}),
    "args": (gather, (1, "b", [None]), {"c": 2, "func": 3, "block": 4}),
    "nones": (gather, (None, 0, "", None), {"a": None, "b": (), "self": 0}),
    "falsy": (lambda: 0, (), {}),
    "exception": (raises, (Odd("x", 1),), {}),
    "builtin-exception": (lambda: 1 // 0, (), {}),
    "returned-exception": (lambda: Odd("y"), (), {}),
    "changed": (changes, ([0],), {}),
    "bad-call": (lambda a: a, (), {}),
    "big": (lambda: b"x" * BIG, (), {}),
    "medium": (lambda: b"x" * 3000, (), {}),
    "unpicklable": (lambda: (lambda: 1), (), {}),
    "exits": (leave, (3,), {}),
}
# what comes back is left open for these: but something does
LOST = ("unpicklable", "exits")


def wanted(call):
    func, args, kwargs = CALLS[call]
    args = [list(a) if isinstance(a, list) else a for a in args]
    try:
        return func(*args, **kwargs)
    except Exception as ex:
        return ex


def alike(got, want):
    if isinstance(want, BaseException):
        return type(got) is type(want) and got.args == want.args
    return same(got, want)


def invoke(call, **kwargs):
    func, args, kw = CALLS[call]
    wrapped = load("test_utils.core").wrap_piped(func, **kwargs)
    args = [list(a) if isinstance(a, list) else a for a in args]
    return wrapped(*args, **kw)


def attempt_lost(call, fn):
    """the result; those that can't come may raise instead."""
    try:
        return fn()
    except Exception as ex:
        if call in LOST:
            return ex
        raise


def judge(call, got):
    if call not in LOST:
        expect(alike(got, wanted(call)), f"{call}:result",
               lambda: f"{call} gave {show(got)}, should be "
                       f"{show(wanted(call))}")


def perform(call):
    func, args, kw = CALLS[call]
    return func(*[list(a) if isinstance(a, list) else a for a in args], **kw)


class Schedules:
    """every schedule of every scenario."""
    name = "schedules"

    def scenarios(self, tier):
        for call in CALLS:
            yield "call", (call,)
            yield "no-block", (call,)
        pairs = [c for c in CALLS if c not in LOST + ("big",)]
        for pair in itertools.product(pairs, repeat=2):
            yield "successive", pair
        for pair in [("args", "falsy"), ("exception", "none"),
                     ("medium", "medium")]:
            yield "simultaneous", pair

    def bodies(self, kind, calls):
        def call(name):
            return lambda: attempt_lost(name, lambda: invoke(name))

        if kind == "call":
            return [call(calls[0])]
        if kind == "successive":
            wrapped = load("test_utils.core").wrap_piped(perform)
            return [lambda: [wrapped(c) for c in calls]]
        if kind == "simultaneous":
            # of one wrapped function
            wrapped = load("test_utils.core").wrap_piped(perform)
            return [lambda c=c: wrapped(c) for c in calls]

        def started():
            proc = invoke(calls[0], block=False)
            expect(proc is not None and hasattr(proc, "join"),
                   "no-block:process", lambda: f"block=False gave {proc!r}")
            return proc
        return [started]

    def check(self, kind, calls, world, mains):
        case = f"{kind} {calls}"
        bad = [p for p in mains if p.error is not None]
        if kind == "no-block":
            # nobody takes its result, so it may stay
            expect(not bad and all(p.done for p in mains),
                   f"{calls[0]}:no-block",
                   lambda: f"{case}: {bad and bad[0].error!r}, "
                           f"{world.verdict}")
            return
        expect(world.verdict is None, f"{calls[0]}:{world.verdict}",
               lambda: f"{case}: {world.verdict}; processes did "
                       f"{[p.hist for p in world.procs]}")
        expect(not bad, f"{calls[0]}:raised",
               lambda: f"{case} raised {bad[0].error!r}")
        if kind == "successive":
            for name, got in zip(calls, mains[0].result):
                judge(name, got)
        else:
            for name, p in zip(calls, mains):
                judge(name, p.result)

    def once(self, kind, calls, rep, only=None):
        struct = load("test_utils.core")
        with simproc.installed(struct):
            if only is not None:
                runs = [self.replayed(kind, calls, only)]
            else:
                runs = simproc.schedules(lambda: self.bodies(kind, calls))
            for choices, world, mains in runs:
                rep.evaluations += 1
                rep.transitions += world.points
                if world.verdict == "pruned":
                    continue
                rep.states.add(digest((kind, calls, [
                    (p.name, p.hist, p.done) for p in world.procs])))
                try:
                    self.check(kind, calls, world, mains)
                except Exception as v:
                    if not hasattr(v, "key"):
                        raise
                    rep.violations.append(dict(
                        key=f"{self.name}:{v.key}", what=v.what,
                        harness=self.name,
                        case=repr((kind, calls, choices))))
                    break
                rep.outcomes.add(digest((kind, calls, world.verdict)))

    def replayed(self, kind, calls, choices):
        left = list(choices)
        world = simproc.World(lambda n, _: left.pop(0) if left else 0)
        simproc.World.current = world
        return choices, world, world.go(self.bodies(kind, calls))

    def explore(self, tier, report, jobs=1):
        rep = Report()
        t0 = time.time()
        for kind, calls in self.scenarios(tier):
            self.once(kind, calls, rep)
        rep.part(self.name, executions=rep.evaluations,
                 transitions=rep.transitions,
                 wall_s=round(time.time() - t0, 2))
        report.merge(rep)

    def replay(self, case):
        rep = Report()
        self.once(case[0], case[1], rep, case[2])
        return rep.violations


class Real(CaseHarness):
    """the same calls with real processes."""
    name = "real"
    max_violations = 100

    def explore(self, tier, report, jobs=8):
        rep = Report()
        super().explore(tier, rep, jobs)
        rep.traces += rep.evaluations
        report.merge(rep)

    def cases(self, tier):
        yield from CALLS

    def run(self, call):
        slow = call in LOST + ("big",)
        # a child that fails says so
        quiet, stderr = os.open(os.devnull, os.O_WRONLY), os.dup(2)
        os.dup2(quiet, 2)
        try:
            got = with_alarm(10 if slow else 50, attempt_lost, call,
                             lambda: invoke(call))
        except Hang:
            expect(False, f"{call}:hang", f"calling {call} did not end")
        finally:
            for child in multiprocessing.active_children():
                child.kill()
                child.join()
            os.dup2(stderr, 2)
            os.close(quiet), os.close(stderr)
        judge(call, got)
        try:
            os.waitpid(-1, os.WNOHANG)
            left = True
        except ChildProcessError:
            left = False
        expect(not left, f"{call}:child", f"the child of {call} is left")
        return call, True


def harnesses(tier):
    return [Schedules(), Real()]
