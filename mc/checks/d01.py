"""D01: a Dynamic runs its source, and its life cycle is consistent."""
import inspect
import itertools

from ..core import CaseHarness, SeqHarness
from ..loader import load
from ..judge import attempt, expect, same, show

LEVEL = "model_checking"
RULE = ("every history of calling, loading, reloading, compiling, defining, "
        "unloading and changing the source, up to the stated depth, for every "
        "constructor setting and several sources (good, raising, with "
        "syntax errors, from functions), against a state machine; and every "
        "call of every source of a menu against the executed source")
ASSUMPTIONS = [
    "sources consist of one undecorated function definition",
    "after a failed compilation only failing (or None, if optional) is "
    "claimed, and that it is recorded; so is recovery after unloading",
]


SOURCES = {
    "good": "def f(x):\n    return ('f', x, G)\n",
    "other": "def other(z, /):\n    return ('other', z, G)\n",
    "div": "def f(x):\n    return 10 // x\n",
    "write": "def f(x):\n    global G\n    G = x\n    return G\n",
    "bad": "def f(x:\n    return x\n",
}


def plain(x):
    return "plain", x, 10 // x if x is not None else 0


def nested():
    def inner(x):
        return "inner", x, 10 // x
    return inner


def reference(source, globals_):
    space = {}
    exec(source, globals_, space)
    return next(v for v in space.values() if inspect.isfunction(v))


class Life(SeqHarness):
    """every life-cycle history."""
    name = "histories"
    direct = True

    def depth(self, tier):
        return 6 if tier == "quick" else 8

    def ops(self, tier):
        ops = [("new", s, opt, lazy, on_call)
               for s in ("good", "div", "write", "write-none", "bad",
                         "plain", "inner")
               for opt, lazy, on_call in itertools.product(
                   (False, True), repeat=3)
               if s != "bad" or lazy]
        ops += [("call", x, opt) for x, opt in (
            (1, None), (0, None), ("s", None), (0, True), (0, False),
            (2, True))]
        ops += [("load",), ("load", True), ("compile",),
                ("compile", False), ("define",), ("define", True),
                ("unload",), ("source", "other"), ("badcall",)]
        return ops

    def world(self):
        class World:
            d = None
        return World()

    def enabled(self, w, op):
        if (op[0] == "new") != (w.d is None):
            return False
        if op[0] == "define" and w.code is None:
            return False
        return True

    def step(self, w, op):
        w.outcome = None
        cls = load("dynamic").Dynamic
        if op[0] == "new":
            _, s, w.opt, lazy, w.on_call = op
            w.errors, w.call_fail, w.compile_fail = [], False, False
            kwargs = dict(optional=w.opt, lazy=lazy, load_on_call=w.on_call)
            if s in ("plain", "inner"):
                func = plain if s == "plain" else nested()
                w.space = None
                got = attempt(cls.from_function, func, **kwargs)
                w.source = w.code = w.func = s
                w.name = func.__name__
            else:
                w.space, w.ref_space = {"G": "g"}, {"G": "g"}
                if s == "write-none":
                    # globals that are given, but hold nothing yet
                    s, w.space, w.ref_space = "write", {}, {}
                got = attempt(cls, SOURCES[s], w.space, **kwargs)
                w.source, w.code, w.func, w.name = s, None, None, None
                if not lazy:
                    w.code = w.func = s
            expect(got[0] == "ok", "new", f"{op}: {show(got)}")
            w.d = got[1]
            self.compare(w, op)
            return
        d = w.d
        want = None
        if op[0] == "load":
            fn = lambda: d.load(*op[1:])  # noqa: E731
            want = self.load(w, op[1:] == (True,))
        elif op[0] == "compile":
            if op[1:] == (False,) and w.code is not None:
                want = "AlreadyLoadedError"
            else:
                self.compile(w)
            fn = lambda: d.compile_source(*op[1:])  # noqa: E731
        elif op[0] == "define":
            if w.func is not None and not op[1:]:
                want = "AlreadyLoadedError"
            else:
                w.func = w.code
            fn = lambda: d.define(*op[1:])  # noqa: E731
        elif op[0] == "unload":
            w.code = w.func = None
            w.errors, w.call_fail, w.compile_fail = [], False, False
            fn = d.unload
        elif op[0] == "source":
            d.source = SOURCES[op[1]]
            if w.space is None:
                d.globals_ = w.space = {"G": "g"}
                w.ref_space = {"G": "g"}
            w.source = op[1]
            fn = str
        elif op[0] in ("call", "badcall"):
            return self.call(w, op)
        got = attempt(fn)
        if want is None:
            expect(got[0] == "ok", op[0], f"{op}: {show(got)}")
        elif want == "any":
            expect(got[0] != "ok", op[0],
                   f"{op} with a source that can't be compiled: {show(got)}")
        else:
            expect(got[0] == want, op[0],
                   f"{op}: {show(got)}, should be {want}")
        self.compare(w, op)

    def compile(self, w):
        if w.source == "bad":
            w.errors = w.errors + [("compile", "SyntaxError")]
            w.compile_fail = True
        else:
            w.code = w.source

    def load(self, w, reload):
        if w.func is not None and not reload:
            return "AlreadyLoadedError"
        if reload or w.code is None:
            self.compile(w)
        if w.code is None:
            return "any"
        w.func = w.code

    def function(self, w):
        if w.func == "plain":
            return plain
        if w.func == "inner":
            return nested()
        return reference(SOURCES[w.func], w.ref_space)

    def call(self, w, op):
        d = w.d
        optional = w.opt
        if op[0] == "badcall":
            args, kwargs = (1, 2, 3), {}
        else:
            args, kwargs = (op[1],), {}
            if op[2] is not None:
                kwargs["_optional"] = optional = op[2]
        got = attempt(d, *args, **kwargs)
        if w.func is None:
            if not w.on_call:
                expect(got[0] == "UnreadyError", "unready",
                       f"{op} of an unloaded Dynamic: {show(got)}, should be "
                       "UnreadyError")
                self.compare(w, op)
                return
            if self.load(w, False) == "any":
                expect(got[0] != "ok" or got[1] is None, "uncompiled",
                       f"{op} of a source that can't be compiled: "
                       f"{show(got)}")
                self.compare(w, op)
                return
        want = attempt(self.function(w), *args)
        if want[0] == "ok":
            expect(got[0] == "ok" and same(got[1], want[1]), "result",
                   f"{op} is {show(got)}, should be {show(want)}")
        elif optional:
            expect(got == ("ok", None), "optional",
                   f"optional {op} is {show(got)}, should be None")
            w.errors = w.errors + [("call", want[0])]
            w.call_fail = True
        else:
            ok = got[0] == want[0] and (
                op[0] == "badcall" or str(got[1]) == str(want[1]))
            expect(ok, "raises", f"{op} is {show(got)}, should raise "
                                 f"{show(want)}")
        self.compare(w, op)
        w.outcome = want[0]

    def compare(self, w, op):
        d = w.d
        shown = [(e.get("category"), str(e.get("exception")))
                 for e in d.errors]
        expect(len(shown) == len(w.errors) and all(
            s[0] == e[0] and e[1] in s[1] for s, e in zip(shown, w.errors)),
            "errors", f"after {op} errors are {shown}, should be {w.errors}")
        for e in d.errors:
            expect(len(e["lineno"]) == len(e["name"]) == len(e["filename"])
                   and len(e["name"]) > 0, "report", f"a report is {e}")
        expect(d.call_fail is w.call_fail, "call_fail",
               f"after {op} call_fail is {d.call_fail}")
        expect(d.compile_fail is w.compile_fail, "compile_fail",
               f"after {op} compile_fail is {d.compile_fail}")
        if w.func is not None:
            fn = self.function(w)
            expect(d.__name__ == fn.__name__, "name",
                   f"after {op} its name is {d.__name__}")
            expect(inspect.signature(d) == inspect.signature(fn),
                   "signature", f"after {op} its signature is "
                                f"{d.__signature__}")
        if w.space is not None:
            mine = {k: v for k, v in w.space.items() if k != "__builtins__"}
            ref = {k: v for k, v in w.ref_space.items()
                   if k != "__builtins__"}
            expect(mine == ref, "globals", f"after {op} the given globals are "
                                           f"{mine}, should be {ref}")
        got = attempt(lambda: (str(d), repr(d)))
        expect(got[0] == "ok", "str", f"after {op}, str(): {show(got)}")
        if w.func is not None:
            expect(all(str(inspect.signature(fn)) in text
                       for text in got[1]), "str",
                   f"after {op}, str() is {show(got)}, without the signature")

    def audit(self, w):
        # after unloading it can be loaded again from its source
        self.step(w, ("unload",))
        if w.source != "bad":
            self.step(w, ("load",))
            self.step(w, ("call", 5, None))

    def canon(self, w):
        return repr((w.source, w.code, w.func, w.opt, w.on_call, w.errors,
                     w.call_fail, w.compile_fail, w.space is None,
                     w.space and w.space.get("G", "none"), w.d.lazy))


MENU = {
    "no-args": ("def f():\n    return 3", [()]),
    "none": ("def f(x):\n    pass", [(1,)]),
    "typed": ("def f(x: float) -> float:\n    return x + 1",
              [(1,), ("j",), ()]),
    "doc": ('def f(x):\n    """text"""\n    return x', [(1,)]),
    "varargs": ("def f(*a, **k):\n    return a, k",
                [(), (1, 2), (1, {"k": 2})]),
    "kwonly": ("def f(x, *, k):\n    return x, k", [(1, {"k": 2}), (1,)]),
    "posonly": ("def f(x, /, y):\n    return x, y",
                [(1, 2), (1, {"y": 2}), ({"x": 1, "y": 2},)]),
    "inner-function": ("def f(x):\n    def g(y):\n        return y + x\n"
                       "    return g(1)", [(1,), ("a",)]),
    "inner-lambda": ("def f(x):\n    return (lambda y: [y, x])(2)", [(1,)]),
    "comprehension": ("def f(x):\n    return [i * 2 for i in x], "
                      "{i: 1 for i in x}", [([1, 2],), (3,)]),
    "generator": ("def f(x):\n    yield x\n    yield x + 1", [(1,)]),
    "raises": ("def f(x):\n    raise KeyError(x)", [(1,)]),
    "finally": ("def f(x):\n    try:\n        return 1 // x\n    except "
                "ZeroDivisionError:\n        return 'z'\n    finally:\n"
                "        x = 1", [(1,), (0,)]),
    "global-name": ("def f(x):\n    return G, x", [(1,)]),
    "builtin": ("def f(x):\n    return len(x), max(x)", [([1, 2],), ([],)]),
    "missing-name": ("def f(x):\n    return NOT_THERE", [(1,)]),
    "import-inside": ("def f(x):\n    import math\n    return math.floor(x)",
                      [(1.5,)]),
    "comment-before": ("# hello\n\ndef f(x):\n    return x", [(1,)]),
    "lambda": ("f = lambda x: (x, G)", [(1,)]),
    "one-line": ("def f(x): return x", [(1,)]),
    "unicode": ("def f(é):\n    return 'ü' + é", [("ö",)]),
    "defaults": ("def f(x, y=2):\n    return x, y", [(1,), (1, 3)]),
    "keyword-defaults": ("def f(x, *, k=2):\n    return x, k",
                         [(1,), (1, {"k": 3})]),
    "lambda-default": ("def f(x, y=lambda: 7):\n    return x, y()",
                       [(1,)]),
    "recursion": ("def f(x):\n    return 1 if x == 0 else x * f(x - 1)",
                  [(3,), (0,)]),
}


class Sources(CaseHarness):
    """every call of every source, as loaded in every way."""
    name = "sources"
    max_violations = 1000

    def cases(self, tier):
        for name, (_, calls) in MENU.items():
            for i in range(len(calls)):
                for how in ("eager", "lazy", "reloaded", "unloaded",
                            "optional", "globals-later"):
                    yield name, i, how

    def run(self, case):
        name, i, how = case
        source, calls = MENU[name]
        args = list(calls[i])
        kwargs = args.pop() if args and isinstance(args[-1], dict) else {}
        space = {"G": "g"}
        given = {} if how == "globals-later" else {"G": "g"}
        d = load("dynamic").Dynamic(source, given, lazy=how == "lazy",
                                    optional=how == "optional")
        given["G"] = "g"
        if how == "reloaded":
            d.load(reload=True)
        elif how == "unloaded":
            d.unload()
        # executed at module level, as such a source would be
        exec(source, space)
        ref = space["f"]

        def run(fn):
            out = attempt(fn, *args, **kwargs)
            if out[0] == "ok" and inspect.isgenerator(out[1]):
                return attempt(list, out[1])
            return out
        got, want = run(d), run(ref)
        if how == "optional" and want[0] != "ok":
            expect(got == ("ok", None) and len(d.errors) == 1,
                   f"{name}:{i}:not-recorded",
                   f"{source!r} with {args} {kwargs}: {show(got)}")
            return want[0], True
        ok = got[0] == want[0] and (
            same(got[1], want[1]) if got[0] == "ok"
            else type(got[1]) is type(want[1]))
        expect(ok, f"{name}:{i}:{got[0] if got != ('ok', None) else None}",
               f"{source!r} called with {args} {kwargs} ({how}): "
                         f"{show(got)}, should be {show(want)}")
        return show(want), True


class Adder:
    step = 5

    def __call__(self, x, *, y=2):
        return x + self.step // y

    def method(self, x, y=3):
        return x - self.step, y

    @classmethod
    def of_class(cls, x):
        return cls.step / x

    @staticmethod
    def of_none(x, *rest):
        return x, rest


def closure(n):
    def adds(x, k=1):
        return x + n, k
    return adds


def generates(x):
    yield x
    yield 1 // x


CALLABLES = {
    "function": lambda: plain,
    "closure": lambda: closure(7),
    "callable": Adder,
    "method": lambda: Adder().method,
    "class-method": lambda: Adder.of_class,
    "static-method": lambda: Adder.of_none,
    "generator": lambda: generates,
}


class FromFunction(CaseHarness):
    """every call of a Dynamic made from every kind of callable."""
    name = "from-function"

    def cases(self, tier):
        for kind in CALLABLES:
            for settings in itertools.product((False, True), repeat=3):
                for args in ((1,), (0,), ("a",), (), (1, 2), (1, 2, 3)):
                    for kwargs in ({}, {"y": 0}, {"y": 1}):
                        yield kind, settings, args, kwargs

    def run(self, case):
        kind, (optional, lazy, on_call), args, kwargs = case
        func = CALLABLES[kind]()
        d = load("dynamic").Dynamic.from_function(
            func, optional=optional, lazy=lazy, load_on_call=on_call)
        expect(inspect.signature(d) == inspect.signature(func), "signature",
               lambda: f"{case}: its signature is {inspect.signature(d)}")
        text = inspect.getsource(
            func if kind != "callable" else Adder.__call__)
        expect(d.source.split() == text.split(), "source",
               lambda: f"{case}: its source is {d.source!r}")
        results = []
        for _ in range(2):
            got, want = attempt(d, *args, **kwargs), attempt(
                func, *args, **kwargs)
            if want[0] == "ok" and inspect.isgenerator(want[1]):
                got, want = attempt(list, got[1]), attempt(list, want[1])
            elif optional and want[0] != "ok":
                results.append(want[0])
                want = "ok", None
            expect(got[0] == want[0] and (
                got[0] != "ok" or same(got[1], want[1])), "result",
                lambda: f"{case}: is {show(got)}, should be {show(want)}")
        expect(len(d.errors) == len(results) and all(
            name in str(e["exception"]) for name, e in zip(
                results, d.errors)) and d.call_fail is bool(results),
            "errors", lambda: f"{case}: errors are {d.errors}")
        return (want[0], len(results)), True


def harnesses(tier):
    return [Life(), Sources(), FromFunction()]
