"""D02: optional functions swallow and report exactly the exceptions."""
import functools
import importlib.machinery
import itertools
import sys
import traceback
import types

from ..core import CaseHarness
from ..loader import load
from ..judge import ARRAY, expect, same, show

LEVEL = "exploration"
RULE = ("every outcome (values, every exception kind, chained exceptions, "
        "interrupts) of functions of several kinds at every call depth, "
        "through optionalize, dontcare, Dynamic and MaybeResult, called "
        "repeatedly; non-trivial: the call raises")
ASSUMPTIONS = ["callbacks return"]


class Odd(Exception):
    def __str__(self):
        return "odd text"


class Base(BaseException):
    pass


def grouped():
    return ExceptionGroup("g", [ValueError(1), KeyError(2)])


RAISES = {
    "value": lambda: ValueError("v"), "key": lambda: KeyError("k"),
    "empty": Exception, "odd": Odd, "stop": StopIteration,
    "memory": MemoryError, "os": lambda: OSError(2, "gone"),
    "unicode": lambda: UnicodeDecodeError("utf-8", b"\xff", 0, 1, "bad"),
    "warning": lambda: UserWarning("w"), "group": grouped,
    "assert": AssertionError, "recursion": RecursionError,
    "kbd": KeyboardInterrupt, "exit": lambda: SystemExit(1), "base": Base,
    "genexit": GeneratorExit,
}
PASS = ("kbd", "exit", "base", "genexit")
VALUES = {"none": None, "zero": 0, "false": False, "list": [1, {"a": 2}],
          "exc-value": ValueError("returned, not raised"),
          "empty-str": "", "nan": float("nan"), "array": ARRAY,
          "class": KeyError, "ellipsis": ...}


class Maker:
    """functions that get to their outcome at some depth, in some way"""

    def __init__(self, outcome, depth, kind):
        self.outcome, self.depth, self.kind = outcome, depth, kind
        self.calls = []
        self.raised = None

    def finish(self):
        if self.outcome in RAISES:
            self.raised = RAISES[self.outcome]()
            if self.kind == "chained":
                try:
                    1 // 0
                except ZeroDivisionError as ex:
                    raise self.raised from ex
            raise self.raised
        return VALUES[self.outcome]

    def go(self, depth):
        if depth == 0:
            return self.finish()
        if self.kind == "exec":
            space = {"go": self.go}
            exec(compile("def inner(n): return go(n)", "<made>", "exec"),
                 space)
            return space["inner"](depth - 1)
        if self.kind == "reraised":
            try:
                return self.go(depth - 1)
            except ValueError:
                raise
        return self.go(depth - 1)

    def function(self):
        def func(*args, **kwargs):
            """its doc"""
            self.calls.append((args, kwargs))
            return self.go(self.depth)
        if self.kind == "lambda":
            return lambda *a, **k: func(*a, **k)
        if self.kind == "exec":
            # code that belongs to no module or file
            space = {"go": func}
            exec("def made(*a, **k):\n\n    return go(*a, **k)", space)
            return space["made"]
        if self.kind == "method":
            return self.method
        if self.kind == "callable":
            return self
        return func

    def method(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        return self.go(self.depth)

    __call__ = method


ARGS = [((), {}), ((1, None), {}), ((), {"k": 2}), (([],), {"a": 1, "b": 2})]
KINDS = ("plain", "chained", "reraised", "lambda", "method", "callable",
         "exec")


class Outcomes(CaseHarness):
    name = "outcomes"

    def cases(self, tier):
        depth = 3 if tier == "quick" else 6
        for way in ("optionalize", "default", "dontcare", "stacked",
                    "result"):
            for out in list(RAISES) + list(VALUES):
                for kind in KINDS:
                    for d in range(depth + 1):
                        for a in range(len(ARGS)):
                            yield way, out, kind, d, a

    def run(self, case):
        way, out, kind, depth, a = case
        dyn, fun, struct = load("dynamic", "func", "structures")
        maker = Maker(out, depth, kind)
        func = maker.function()
        if kind == "callable":
            # callables need a name to be wrapped
            functools.update_wrapper(maker, Maker.method)
        told, reports = [], []

        def tell(ex):
            # what a callback returns is nobody's result
            told.append(ex)
            return "told", ex
        if way == "optionalize":
            wrapped = fun.optionalize(func, tell)
        elif way == "default":
            wrapped = fun.optionalize(func)
        elif way == "stacked":
            # the inner one leaves nothing for the outer one to see
            wrapped = fun.optionalize(
                fun.optionalize(func, exc_callback=tell),
                exc_callback=lambda ex: told.append("twice"))
        elif way == "dontcare":
            wrapped = dyn.dontcare(func, reports)
        else:
            def wrapped(*args, **kwargs):
                return struct.MaybeResult(func, args, kwargs)
        args, kwargs = ARGS[a]
        shown = None
        for n in (1, 2):
            caught = got = None
            maker.calls.clear()
            try:
                got = wrapped(*args, **kwargs)
            except BaseException as ex:
                if type(ex).__name__ == "Hang":
                    raise
                caught = ex
            what = f"{way} call of a {kind} function with outcome {out}"
            expect(same(maker.calls, [(args, kwargs)]), "calls",
                   f"{what}: the function was called with {maker.calls}, "
                   f"should be once with {args} {kwargs}")
            if out in PASS:
                ok = caught is maker.raised
                # what ends a process or a generator may also be swallowed by
                # nobody: only Exceptions are
                expect(ok, "passes", f"{what}: raised {caught!r} and returned "
                                     f"{got!r}, should raise {maker.raised!r}")
                expect(not told and not reports, "passes",
                       f"{what} was reported as {told or reports}")
                continue
            expect(caught is None, "raised", f"{what} raised {caught!r}")
            if way == "result":
                self.result(got, out, maker, what)
                shown = repr(got.value)
                continue
            if out in VALUES:
                expect(got is VALUES[out], "value",
                       f"{what} returned {got!r}")
                expect(not told and not reports, "told",
                       f"{what} was reported as {told or reports}")
                continue
            expect(got is None, "value", f"{what} returned {got!r}, should "
                                         "be None")
            if way in ("optionalize", "stacked"):
                expect(len(told) == n and told[-1] is maker.raised, "told",
                       f"{what}: callback got {told}, should be "
                       f"{maker.raised!r}")
            elif way == "dontcare":
                expect(len(reports) == n, "told",
                       f"{what}: {len(reports)} reports after {n} calls")
                self.report(reports[-1], maker, func, what)
                shown = repr(reports[-1]["name"])
        return shown or (out, way), out in RAISES

    @staticmethod
    def result(got, out, maker, what):
        expect(got.ready() is True, "ready", f"{what} is not ready")
        caught = value = None
        try:
            value = got.get()
        except Exception as ex:
            caught = ex
        if out in RAISES:
            expect(caught is maker.raised and got.value is maker.raised,
                   "result", f"{what}: get() raised {caught!r}")
        elif out != "exc-value":
            expect(caught is None and value is VALUES[out], "result",
                   f"{what}: get() gave {value!r} / {caught!r}")

    @staticmethod
    def report(report, maker, func, what):
        raised = maker.raised
        expect(report["category"] == "call" and report["func"] is func,
               "report", f"{what}: the report is {report}")
        text = str(report["exception"])
        expect(type(raised).__name__ in text and str(raised) in text,
               "report", f"{what}: the report names {text!r}")
        check_levels(report, raised, what)


def check_levels(report, raised, what):
    want = [(f.filename, f.lineno, f.name)
            for f in traceback.extract_tb(raised.__traceback__)]
    got = list(itertools.zip_longest(
        report["filename"], report["lineno"], report["name"]))
    # the traceback may have grown on its way up since it was reported
    expect(0 < len(got) and len(got) <= len(want), "report",
           f"{what}: {len(got)} levels, the traceback has {len(want)}")
    expect(all(g[0] == w[0] and g[1] == w[1]
               and g[2].rsplit(".", 1)[-1] == w[2]
               for g, w in zip(reversed(got), reversed(want))), "report",
           f"{what}: levels are {got}, the traceback is {want}")


class Reports(CaseHarness):
    """exc_report itself."""
    name = "reports"

    def cases(self, tier):
        yield None, 0, "plain", True
        for out in RAISES:
            for depth in range(6 if tier == "quick" else 20):
                for kind in KINDS:
                    for text in (True, False, None):
                        yield out, depth, kind, text

    def run(self, case):
        out, depth, kind, text = case
        report = load("dynamic").exc_report
        if out is None:
            expect(report(None) == {}, "none", "exc_report(None) is not {}")
            return {}, False
        maker = Maker(out, depth, kind)
        try:
            maker.function()()
        except BaseException as ex:
            caught = ex
        got = report(caught) if text is None else report(caught, text)
        if text is False:
            expect(got["exception"] is caught, "exception",
                   f"the exception is {got['exception']!r}")
        else:
            expect(type(caught).__name__ in got["exception"] and
                   str(caught) in got["exception"], "exception",
                   f"{got['exception']!r} for {caught!r}")
        want = traceback.extract_tb(caught.__traceback__)
        expect(len(got["lineno"]) == len(got["name"]) == len(got["filename"])
               == len(want), "levels",
               f"{len(want)} levels reported as {got}")
        check_levels(got, caught, f"exc_report of {case}")
        for f, w in zip(got["name"], want):
            expect(f.endswith(w.name), "name", f"{f!r} for {w.name!r}")
            # and the module is named where there is one
            expect(w.filename != __file__ or f.startswith(__name__), "name",
                   f"{f!r} does not name the module")
        return got["name"], True


SCRIPT = """
def one(x):
    return 1 // x

class Two:
    def go(self, x):
        return one(x)

def three(x):
    return (lambda y: Two().go(y))(x)
"""


class Modules(CaseHarness):
    """frames of modules of every kind, such as scripts."""
    name = "modules"
    count = itertools.count()

    def cases(self, tier):
        for spec in ("none", "missing", "own", "nameless"):
            for registered in (True, False):
                for doc in (True, False):
                    for calls in ("one", "three", "three one", "one three"):
                        yield spec, registered, doc, calls

    def run(self, case):
        spec, registered, doc, calls = case
        title = f"mc_d02_script_{next(self.count)}"
        path = f"/nonexistent/{title}.py"
        module = types.ModuleType(title, "text" if doc else None)
        module.__file__ = path
        if spec == "missing":
            del module.__spec__, module.__loader__, module.__package__
        elif spec != "none":
            module.__spec__ = importlib.machinery.ModuleSpec(
                title if spec == "own" else "other.name", None, origin=path)
        exec(compile(SCRIPT, path, "exec"), module.__dict__)
        dynamic = load("dynamic")
        if registered:
            sys.modules[title] = module
        try:
            target = []
            for name in calls.split():
                func = dynamic.dontcare(getattr(module, name), target)
                expect(func(0) is None, "result", f"{case}: not None")
            try:
                getattr(module, name)(0)
            except ZeroDivisionError as ex:
                own = dynamic.exc_report(ex)
        finally:
            sys.modules.pop(title, None)
        expect(len(target) == len(calls.split()), "reports",
               f"{case}: reports are {target}")
        for name, got in [*zip(calls.split(), target), (name, own)]:
            where = [n for n, f in zip(got["name"], got["filename"])
                     if f == path]
            want = ["one"] if name == "one" else ["three", "<lambda>", "go",
                                                  "one"]
            expect(len(where) == len(want) and all(
                w.rsplit(".", 1)[-1] == n and (
                    w.startswith(f"{title}.") or not registered)
                for w, n in zip(where, want)), "names",
                f"{case}: levels are {got['name']}, should be those of {want}"
                f" in {title}")
        return case, True


class Pooled(CaseHarness):
    """outcomes of several calls without worker processes."""
    name = "pooled"

    def cases(self, tier):
        outs = ["none", "list", "value", "odd", "kbd"]
        for n in (1, 2, 3) if tier == "quick" else (1, 2, 3, 4, 5):
            for combo in itertools.product(outs, repeat=n):
                for filtered in (False, True):
                    yield combo, filtered

    def run(self, case):
        combo, filtered = case
        struct = load("structures")
        makers = [Maker(o, 1, "plain") for o in combo]

        def call(ix, extra=None):
            return makers[ix].function()(ix, extra=extra)
        recs = [{"args": (i,), "kwargs": {"extra": i}, "key": f"k{i}"}
                for i in range(len(combo))]
        got = caught = None
        try:
            got = struct.map_into_pool(call, recs, filter_exc=filtered)
        except BaseException as ex:
            caught = ex
        if "kbd" in combo:
            expect(isinstance(caught, KeyboardInterrupt), "kbd",
                   f"outcomes {combo}: {got!r} instead of KeyboardInterrupt")
            return "kbd", True
        expect(caught is None, "raised", f"outcomes {combo}: {caught!r}")
        want = {f"k{i}": m.raised if o in RAISES else VALUES[o]
                for i, (o, m) in enumerate(zip(combo, makers))
                if not (filtered and o in RAISES)}
        expect(list(got) == list(want) and all(
            got[k] is want[k] for k in want), "results",
            f"outcomes {combo}: {got}, should be {want}")
        expect(all(m.calls == [((i,), {"extra": i})]
                   for i, m in enumerate(makers)), "calls",
               f"outcomes {combo}: calls {[m.calls for m in makers]}")
        return repr(want), any(o in RAISES for o in combo)


def harnesses(tier):
    return [Outcomes(), Reports(), Modules(), Pooled()]
