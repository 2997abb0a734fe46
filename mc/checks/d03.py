"""D03: digsource finds the text that defines what it is given."""
import importlib.util
import itertools
import os
import shutil
import sys
import tempfile
from functools import partial
from textwrap import dedent

from ..core import CaseHarness
from ..judge import attempt, expect, show
from ..loader import load

LEVEL = "exploration"
RULE = ("every object of a menu of functions, methods, classes, callable "
        "objects, builtins and Dynamics in every stage of their life cycle, "
        "by itself and in every stack of up to 3 (4) wrappers (partials "
        "with and without arguments, partial methods, objects with a func, "
        "Dynamics made of functions); non-trivial: there is a source")
ASSUMPTIONS = [
    "the indentation of what was nested in something else may be kept or not",
    "for a class or callable instance that is not wrapped, a TypeError or its "
    "source are accepted; for builtins and things without any source, any "
    "TypeError or OSError",
]

TEXTS = {
    "plain": "def plain(x, y=2):\n    # a comment\n    return x, y\n",
    "twin": "def twin(x):\n\n    return [\n        x\n    ]\n",
    "wrapped": "@passing\ndef wrapped(x):\n    return 'wrapped', x\n",
    "later": "async def later(x):\n    return x\n",
    "yields": "def yields(x):\n    yield x\n",
    "short": "short = lambda x: x + 1\n",
    "text": 'def text(x):\n    """a doc: def f(x)\n    \'\'\'"""\n'
            "    return '''\nz\n'''\n",
}
# nested functions and methods named like functions of the module
NAMESAKE = "    def plain(x, y=3):\n        return 'nested', x, y\n"
NAMESAKE_2 = "        def plain(x, y=4):\n            return 'deeper', x\n"
COMMON = "    def plain(self, y=5):\n        return 'method', y\n"
INNER = "    def inner(x):\n        return x, 'inner'\n"
METHOD = "    def method(self, x):\n        return self, x\n"
CALL = "    def __call__(self, x):\n        return 'call', x\n"
KLASS = ("    @classmethod\n    def made(cls, x):\n"
         "        return cls, x\n")
STATIC = "    @staticmethod\n    def fixed(x):\n        return x\n"
CLASS = ("class Thing:\n    func_count = 1\n\n" + METHOD + "\n" + CALL + "\n"
         + KLASS + "\n" + STATIC + "\n" + COMMON)
FILE = ("from functools import wraps\n\n\n"
        "def passing(f):\n    @wraps(f)\n    def go(*args):\n"
        "        return f(*args)\n    return go\n\n\n"
        + "\n\n".join(TEXTS.values()) + "\n\ndef outer():\n" + INNER
        + "    return inner\n\n\n" + CLASS
        + "\n\ndef namesakes():\n" + NAMESAKE
        + "\n    def deeper():\n" + NAMESAKE_2
        + "        return plain\n\n    return plain, deeper()\n")
DYNAMIC = {
    "good": "def made(x):\n    return 'made', x\n",
    "raises": "def raises(x):\n    # no\n    raise ValueError(x)\n",
    "spaced": "\n\ndef spaced(x): return x",
}


class Holder:
    def __init__(self, func):
        self.func = func


class Sources(CaseHarness):
    name = "sources"

    def prepare(self):
        self.dir = tempfile.mkdtemp(prefix="mc-d03-")
        path = os.path.join(self.dir, "mc_d03_sample.py")
        with open(path, "w") as stream:
            stream.write(FILE)
        spec = importlib.util.spec_from_file_location("mc_d03_sample", path)
        self.module = importlib.util.module_from_spec(spec)
        sys.modules["mc_d03_sample"] = self.module
        spec.loader.exec_module(self.module)
        shutil.copy(path, path + ".txt")
        # functions may have any attribute
        self.module.twin.func = self.module.plain
        self.module.Thing.method.func = self.module.plain

    def explore(self, tier, report, *args):
        try:
            super().explore(tier, report, *args)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def base(self, name):
        """the object, its source (None: there is none), may it refuse?"""
        m = self.module
        if name in TEXTS:
            return getattr(m, name), TEXTS[name], False
        if name == "inner":
            return m.outer(), INNER, False
        if name in ("namesake", "namesake-2"):
            i = name == "namesake-2"
            return m.namesakes()[i], (NAMESAKE, NAMESAKE_2)[i], False
        if name == "common":
            return m.Thing().plain, COMMON, False
        if name == "bound":
            return m.Thing().method, METHOD, False
        if name == "unbound":
            return m.Thing.method, METHOD, False
        if name == "classmethod":
            return m.Thing.made, KLASS, False
        if name == "staticmethod":
            return m.Thing.fixed, STATIC, False
        if name == "class":
            return m.Thing, CLASS, True
        if name == "instance":
            return m.Thing(), CALL, True
        if name in ("len", "text-object", "none", "method-of-builtin"):
            return {"len": len, "text-object": "def f(x): pass",
                    "none": None, "method-of-builtin": [].append}[name], \
                None, True
        dyn = load("dynamic")
        if name == "empty dynamic":
            return dyn.Dynamic(lazy=True), None, True
        _, which, stage = name.split("/")
        text = DYNAMIC[which]
        d = dyn.Dynamic(text, optional="optional" in stage,
                        lazy="lazy" in stage)
        if "called" in stage:
            attempt(d, 1)
        if "unloaded" in stage:
            d.unload()
        if "reloaded" in stage:
            d.load(reload=True)
        return d, text, False

    def cases(self, tier):
        bases = [*TEXTS, "inner", "namesake", "namesake-2", "common", "bound", "unbound", "classmethod",
                 "staticmethod", "class", "instance", "len", "none",
                 "text-object", "method-of-builtin", "empty dynamic"]
        for which in DYNAMIC:
            bases += [f"dynamic/{which}/{stage}" for stage in (
                "", "lazy", "lazy-called", "called-optional", "unloaded",
                "unloaded-reloaded", "called-unloaded-reloaded-called",
                "reloaded")]
        longest = 4 if tier == "thorough" else 3
        for n in range(longest + 1):
            for wraps in itertools.product(
                    ("partial", "partial-1", "partial-x", "holder",
                     "from_function"), repeat=n):
                for b in bases:
                    if "from_function" in wraps and (
                            wraps[0] != "from_function"
                            or "from_function" in wraps[1:]
                            or not (b in TEXTS and b not in
                                    ("wrapped", "short")
                                    or b in ("inner", "unbound", "namesake",
                                             "namesake-2"))):
                        continue
                    yield b, wraps

    def run(self, case):
        name, wraps = case
        obj, text, may = self.base(name)
        may = may and not (name == "class" and wraps)
        for w in wraps:
            if w == "from_function":
                obj = load("dynamic").Dynamic.from_function(obj)
            elif w == "holder":
                obj = Holder(obj)
            else:
                if not callable(obj):
                    return "no partial", False
                obj = {"partial": lambda: partial(obj),
                       "partial-1": lambda: partial(obj, 1),
                       "partial-x": lambda: partial(obj, x=2)}[w]()
        got = attempt(load("dynamic").digsource, obj)
        what = f"digsource of {name} in {wraps}"
        if got[0] == "ok":
            expect(text is not None, "invented",
                   lambda: f"{what}: {show(got)}, but it has no source")
            ok = isinstance(got[1], str) and (
                dedent(got[1]).strip("\n") == dedent(text).strip("\n"))
            if name == "instance":
                ok = ok or dedent(got[1]) == CLASS
            expect(ok, "text",
                   lambda: f"{what}: {show(got)}, should be {text!r}")
        else:
            expect(may, "refused", lambda: f"{what}: {show(got)}")
            expect(got[1] in ("TypeError", "OSError")
                   or isinstance(got[1], (TypeError, OSError)), "error",
                   lambda: f"{what}: {show(got)}")
        return repr(got), text is not None


def harnesses(tier):
    return [Sources()]
