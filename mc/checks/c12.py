"""C12: debugging changes nothing but the log."""
import itertools
import os
import re
import shutil
import tempfile
import threading

import numpy as np

from ..core import CaseHarness
from ..judge import attempt, expect
from ..stores import W, blocks
from . import c01, c02, c03, c04

LEVEL = "model_checking"
RULE = ("every history of operations through two handles made with "
        "debug=True (or one with and one without), and every schedule of "
        "processes taking a lock made so, against the models of C01-C04; the "
        "log is read after each")
ASSUMPTIONS = [
    "the folder that the log file is in exists",
    "operations on stores do not overlap in time (those on locks do)",
]
LINE = re.compile(rb"[^,]{5,30},\d+,.*")


class Logs:
    """every worker process logs to a folder of its own."""

    def __init__(self):
        self.root = None

    def __enter__(self):
        self.root = tempfile.mkdtemp(
            prefix="mc-c12-",
            dir="/dev/shm" if os.access("/dev/shm", os.W_OK) else None)
        self.cwd = os.getcwd()

    def __exit__(self, *_):
        os.chdir(self.cwd)
        shutil.rmtree(self.root, ignore_errors=True)
        self.root = None

    def begin(self):
        mine = os.path.join(self.root, str(os.getpid()))
        self.file = os.path.join(mine, "holding", "dumplog.csv")
        if not os.path.isdir(mine):
            os.makedirs(os.path.join(mine, "holding"))
            os.makedirs(os.path.join(mine, "work"))
        os.chdir(os.path.join(mine, "work"))
        if os.path.exists(self.file):
            os.truncate(self.file, 0)

    def check(self, used=True):
        there = os.path.exists(self.file)
        data = open(self.file, "rb").read() if there else b""
        expect(data or not used, "log", "nothing was logged")
        for line in data.split(b"\n")[:-1]:
            expect(LINE.fullmatch(line), "log", lambda: f"logged {line!r}")
        strays = os.listdir(".") + [
            f for f in os.listdir(os.path.dirname(self.file))
            if f != "dumplog.csv"]
        expect(not strays, "strays", lambda: f"{strays} were created")


LOGS = Logs()


def logged(base, label, **settings):
    """the harness, in a folder with a log, with debugging stores."""

    class Logged(base):
        name = label

        def explore(self, *args, **kwargs):
            with LOGS:
                super().explore(*args, **kwargs)

        def replay(self, case):
            with LOGS:
                return super().replay(case)

        def world(self):
            LOGS.begin()
            return super().world()

        def audit(self, w):
            super().audit(w)
            LOGS.check(self.always and w.model)

    Logged.config = {"debug": True}
    Logged.always = True
    for key, value in settings.items():
        setattr(Logged, key, value)
    return Logged


class Mixed:
    """only the second handle is made for debugging."""

    def pad(self, ix, create=False):
        self.config = {"debug": ix == 1}
        return super().pad(ix, create)


class Notes(Mixed, c01.NotepadHistories):
    pass


class Locks(c04.Mutex):
    name = "locks"

    def scenarios(self, tier):
        quick = tier == "quick"
        return [
            ("2 processes", (("plain", 1), ("plain", 1)), 4 if quick else
             None),
            ("lock object reused", (("reuse", 2), ("reuse", 2)),
             2 if quick else 4),
            ("raising critical section", (("raising", 1), ("plain", 1)),
             2 if quick else 4),
            ("waiter times out",
             (("timeout", 0), ("plain", 1), ("plain", 1)), 1 if quick else 2),
            ("waiter interrupted",
             (("interrupted", 0), ("plain", 1), ("plain", 1)),
             1 if quick else 2),
            ("3 processes", (("plain", 1),) * 3, 1 if quick else 2),
        ]

    def explore(self, *args, **kwargs):
        with LOGS:
            c04.DEBUG[0] = True
            try:
                super().explore(*args, **kwargs)
            finally:
                c04.DEBUG[0] = False

    def replay(self, case):
        with LOGS:
            c04.DEBUG[0] = True
            try:
                return super().replay(case)
            finally:
                c04.DEBUG[0] = False

    def build(self, args):
        LOGS.begin()
        return super().build(args)


class Limits(c04.Limits):
    name = "lock-limits"

    def explore(self, *args, **kwargs):
        with LOGS:
            c04.DEBUG[0] = True
            try:
                super().explore(*args, **kwargs)
            finally:
                c04.DEBUG[0] = False

    def replay(self, case):
        with LOGS:
            c04.DEBUG[0] = True
            try:
                return super().replay(case)
            finally:
                c04.DEBUG[0] = False

    def run(self, case):
        LOGS.begin()
        result = super().run(case)
        LOGS.check()
        return result


class Untold:
    """cannot be shown"""
    def __repr__(self):
        raise ValueError("cannot be shown")

    def __reduce__(self):
        return Untold, ()


class Unread:
    """can be stored, but not read back here"""
    def __reduce__(self):
        return unread, ()


class Unequal:
    """whatever is made of it counts"""
    counted = []

    def __repr__(self):
        return "unequal"

    def __eq__(self, other):
        self.counted.append("==")
        raise ValueError("cannot be compared")

    def __bool__(self):
        self.counted.append("bool")
        raise ValueError("has no truth value")

    def __len__(self):
        self.counted.append("len")
        raise ValueError("has no length")

    def __reduce__(self):
        self.counted.append("dumps")
        return equal, ()


def unread():
    raise ValueError("cannot be read here")


def equal():
    Unequal.counted.append("loads")
    return Unequal()


ODD = {"untold": Untold, "unread": Unread, "unequal": Unequal,
       "unstorable": threading.Lock, "plain": lambda: "a"}


class Odd(CaseHarness):
    """values that are no use for anything but storing them."""
    name = "odd-values"
    CONFIGS = {"plain": {}, "meta": {"index_type": "MetaTagIndex"},
               "fake": {"index_type": "FakeIndex"},
               "nolock": {"no_lockout": True}}

    def cases(self, tier):
        ops = [(what, v) for what in ("set", "new") for v in ODD]
        ops += [("get", None), ("del", None)]
        for config in self.CONFIGS:
            for n in (1, 2, 3 if tier == "quick" else 4):
                for history in itertools.product(ops, repeat=n):
                    if history[0][1] is not None:
                        yield config, history

    def explore(self, *args, **kwargs):
        with LOGS:
            super().explore(*args, **kwargs)

    def replay(self, case):
        with LOGS:
            return super().replay(case)

    def run(self, case):
        config, history = case
        plain = self.story(config, history, False)
        told = self.story(config, history, True)
        for op, a, b in zip((None, *history), plain, told):
            expect(a == b, "differs",
                   lambda: f"{config}: {op} in {history}: {b} with debug, "
                           f"{a} without")
        return plain[-1], True

    def story(self, config, history, debug):
        W.reset()
        LOGS.begin()
        mod = W.copy(0)["codex.implements"]
        config = dict(self.CONFIGS[config])
        if "index_type" in config:
            config["index_type"] = getattr(mod, config["index_type"])
        Unequal.counted.clear()
        pad = mod.Notepad("p", create=True, debug=debug, **config)
        out = [None]
        for what, v in history:
            def do():
                if what == "get":
                    return type(pad["k"]).__name__
                elif what == "del":
                    del pad["k"]
                else:
                    pad.set("k", ODD[v](), exists_ok=what == "set")
            got = attempt(do)
            keys = attempt(lambda: sorted(pad.keys()))
            out.append((got if got[0] == "ok" else (got[0], type(
                got[1]).__name__), keys if keys[0] == "ok" else keys[0],
                sorted(blocks().items()), list(Unequal.counted)))
        LOGS.check(False)
        return out


KEYS = [(1, 2), None, 1.5, True, b"k", frozenset([1]), "", "%s{}", "{0}", 2 ** 70,
        "a,b\nc", Ellipsis, int, "k" * 100, 1j, (), "\u65e5"]


class OddKeys(Odd):
    """keys of all types: they are used as text, and so they are logged."""
    name = "odd-keys"
    KINDS = ["Notepad", "GridPaper", "TagIndex", "MetaTagIndex"]

    def cases(self, tier):
        n = len(KEYS)
        for kind in self.KINDS:
            for i in range(n):
                for j in range(n) if tier == "thorough" else (i, (i + 1) % n):
                    yield kind, i, j

    def run(self, case):
        plain, told = self.story(*case, False), self.story(*case, True)
        for (what, a), (_, b) in zip(plain, told):
            expect(a == b, "differs",
                   lambda: f"{what} of {case[0]} with {KEYS[case[1]]!r} and "
                           f"{KEYS[case[2]]!r}: {b} with debug, {a} without")
        return repr(plain), True

    def story(self, kind, i, j, debug):
        W.reset()
        LOGS.begin()
        mod = W.copy(0)["codex.implements"]
        store = getattr(mod, kind)("p", create=True, debug=debug)
        one, two = KEYS[i], KEYS[j]
        value = {"Notepad": 1, "GridPaper": np.arange(3)}.get(kind)
        put = store.add if value is None else (
            lambda key, **kw: store.set(key, value, **kw))
        look = store.check if value is None else lambda key: repr(store[key])
        drop = store.__delitem__
        out = []
        for what, do in (
            ("put", lambda: put(one)), ("put", lambda: put(two)),
            ("put again", lambda: put(one, exists_ok=False)),
            ("look", lambda: look(one)), ("drop", lambda: drop(one)),
            ("look", lambda: look(two)), ("look", lambda: look(one)),
            ("put", lambda: put(one)), ("drop", lambda: drop(two)),
            ("drop", lambda: drop(two)), ("close", store.close),
        ):
            got = attempt(do)
            out.append((what, (
                (got[0], repr(got[1])) if got[0] == "ok" else
                type(got[1]).__name__, sorted(blocks().items()))))
        return out


VALUES = dict(c01.VALUES, surrogate="a\ud800b")


def harnesses(tier):
    deep = 3 if tier == "quick" else 4

    def depth(self, tier):
        return deep

    small = dict(keys=("k", "kk"), values=("one", "list"), depth=depth,
                 validate=10)
    return [
        logged(c01.NotepadHistories, "notepad", **small)(),
        logged(Notes, "notepad-mixed", always=False, **small)(),
        logged(c01.NotepadHistories, "notepad-texts", **{
            **small, "keys": ("k", "\u65e5"), "menu": VALUES,
            "values": ("surrogate", "none")})(),
        *[
            logged(c01.NotepadHistories, f"notepad-{label}", **{
                **small, "config": {"debug": True, **config},
                "listing": label != "fake"})()
            for label, config in {
                "fake": {"index_type": "FakeIndex"},
                "meta": {"index_type": "MetaTagIndex"},
                "nolock": {"no_lockout": True},
            }.items()
        ],
        logged(c02.Grid, "grid", **{
            **small, "values": ("i4", "f8")})(),
        logged(c03.Index, "tag-index", **{
            **small, "keys": ("a", "b", "ab")})(),
        logged(c03.Meta, "meta-index", **{
            **small, "keys": ("a", "b"), "metas": ("m",)})(),
        Odd(), OddKeys(), Locks(), Limits(),
    ]
