"""C02: a GridPaper is one dictionary of arrays shared by all its handles."""
import itertools
import os

import numpy as np

from .. import simshm, world as W
from ..core import CaseHarness
from ..loader import load
from ..stores import EQUALS, attempt, expect, same_array, show
from .c01 import (
    ODD_KEYS, Anonymous, Closure, Looks, NotepadHistories, PREFIXES, Twins
)

LEVEL = "model_checking"
RULE = ("every history of operations through two handles up to the stated "
        "depth (or until no new contents of shared memory appear), each step "
        "and the resulting contents compared with a dict of arrays: shape, "
        "dtype and every byte")
ASSUMPTIONS = [
    "operations do not overlap in time (C05 covers overlapping ones)",
    "dtypes without Python objects; arrays of class ndarray",
]

_BASE = np.arange(24, dtype="i4").reshape(2, 3, 4)
ARRAYS = {
    "i4": np.array([1, -2, 3], dtype="i4"),
    "f8": np.array([[1.5, np.nan], [-0.0, np.inf]]),
    "bool": np.array([True, False, True]),
    "u1": np.arange(12, dtype="u1").reshape(3, 4),
    "f4": np.array([[0.5], [2.5], [1e30]], dtype="f4"),
    "big-endian": np.array([1, 256, 65536], dtype=">i4"),
    "fortran": np.asfortranarray(_BASE[0]),
    "strided": _BASE[:, ::2, ::-1],
    "transposed": _BASE.T,
    "broadcast": np.broadcast_to(np.array([7, 8], dtype="i2"), (3, 2)),
    "scalar": np.array(2.25),
    "empty": np.empty((0, 2), dtype="i8"),
    "flat-empty": np.array([], dtype="f4"),
    "text": np.array(["a", "bcd", ""]),
    "bytes": np.array([b"ab", b""]),
    "complex": np.array([1 + 2j, -1j]),
    "date": np.array(["2020-01-01", "NaT"], dtype="M8[D]"),
    "record": np.array([(1, 2.5), (3, 4.5)], dtype=[("a", "i4"),
                                                     ("b", "f8")]),
    "nested": np.array([((1, 2), [3, 4])],
                       dtype=[("p", [("x", "i2"), ("y", ">i4")]),
                              ("q", "f4", (2,))]),
    "large": np.arange(1000, dtype="f8").reshape(10, 100),
    "one": np.array([[[9]]], dtype="i8"),
    "read-only": np.frombuffer(b"abcdefgh", dtype="u2"),
}


class Grid(NotepadHistories):
    store = "GridPaper"
    menu = ARRAYS
    equal = staticmethod(same_array)
    values = ("i4", "f8", "u1")
    keys = ("k", 3)

    def depth(self, tier):
        return 3 if tier == "quick" else 4

    def world(self):
        w = super().world()
        w.held = []
        return w

    def ops(self, tier):
        out = super().ops(tier)
        out.append(("keep", 0, self.keys[0], self.values[-1]))
        out.append(("hold", 1, self.keys[0]))
        out.append(("scribble", 0, self.keys[0]))
        return out

    def enabled(self, w, op):
        if op[0] in ("hold", "scribble"):
            return str(op[2]) in w.model
        return True

    def step(self, w, op):
        what, h = op[:2]
        pad = w.pads[h]
        if what == "keep":
            value = self.menu[op[3]]
            got = attempt(lambda: pad.__setitem__(op[2], value,
                                                  keep_open=True))
            expect(got[0] == "ok", "set-failed", f"{op}: {show(got)}")
            w.model[str(op[2])] = value
        elif what == "hold":
            # an array handed out by [] belongs to whoever asked for it
            got = attempt(lambda: pad[op[2]])
            expect(got[0] == "ok", "lookup", f"{op}: {show(got)}")
            w.held.append((got[1], got[1].copy()))
            got = attempt(lambda: pad.get(op[2], copy=True))
            expect(got[0] == "ok" and same_array(got[1], w.held[-1][0]),
                   "lookup", f"{op} by get(): {show(got)}")
            w.held.append((got[1], got[1].copy()))
        elif what == "scribble":
            got = attempt(lambda: pad[op[2]])
            expect(got[0] == "ok", "lookup", f"{op}: {show(got)}")
            got[1][...] = np.zeros((), got[1].dtype)
        elif what in ("set", "new", "method"):
            # the array passed in belongs to the caller: change it afterwards
            value = self.menu[op[3]]
            mine = value.copy(order="K") if value.flags.writeable else value
            if what == "set":
                got = attempt(lambda: pad.__setitem__(op[2], mine))
            elif what == "method":
                got = attempt(lambda: pad.set(op[2], mine))
            else:
                got = attempt(lambda: pad.set(op[2], mine, exists_ok=False))
            if what == "new" and str(op[2]) in w.model:
                expect(got[0] == "KeyError", "exists-ok",
                       f"{op}: {show(got)}, should be KeyError")
            else:
                expect(got[0] == "ok", "set-failed", f"{op}: {show(got)}")
                expect(same_array(mine, value), "argument-changed",
                       f"{op} changed the array it was given")
                w.model[str(op[2])] = value
            if mine is not value:
                mine[...] = np.zeros((), mine.dtype)
        else:
            super().step(w, op)

    def audit(self, w):
        super().audit(w)
        for got, was in w.held:
            expect(same_array(got, was), "held-array-changed",
                   f"an array read by [] changed from {was!r} to {got!r}")
        w.outcome = [(k, v.dtype.str, v.shape, v.tobytes())
                     for k, v in sorted(w.model.items())]


class Unmerged(Grid):
    """every history is kept: nothing rests on the state identity."""
    name = "two-handles-unmerged"
    merge = False
    validate = 20

    def depth(self, tier):
        return 3 if tier == "quick" else 4

    def ops(self, tier):
        return [
            ("set", 0, "k", "i4"), ("set", 1, "k", "f8"),
            ("set", 1, 3, "u1"), ("set", 0, 3, "i4"),
            ("del", 0, "k"), ("del", 1, 3), ("del", 1, "k"),
            ("clear", 0), ("look", 0), ("look", 1), ("reopen", 1),
        ]


class Arrays(Closure, Grid):
    """every array over every other one, at one key and beside another."""
    name = "all-arrays"
    keys = ("k",)
    values = tuple(ARRAYS)
    validate = 30

    def depth(self, tier):
        return 2 if tier == "quick" else 3

    def ops(self, tier):
        out = []
        for v in self.values:
            out.append(("set", 0, "k", v))
            out.append(("keep", 1, "k", v))
            if tier != "quick":
                out.append(("new", 1, "k", v))
        return out + [("del", 1, "k"), ("clear", 0), ("hold", 1, "k"),
                      ("scribble", 0, "k")]


class ManyKeys(Closure, Grid):
    """every order of the index with its metadata."""
    name = "many-keys"
    keys = ("a", "b", "ab", "c")

    def depth(self, tier):
        return 40

    def ops(self, tier):
        keys = self.keys[:3] if tier == "quick" else self.keys
        out = []
        for i, k in enumerate(keys):
            out.append(("set", 0, k, ("i4", "f8", "scalar", "empty")[i]))
            out.append(("set", 1, k, ("u1", "text", "f8", "f4")[i]))
            out.append(("del", 1, k))
        return out + [("clear", 1), ("reopen", 1)]


class UpdateFirst(Grid):
    name = "config-update-on-init"
    config = {"update_on_init": True}
    validate = 10
    values = ("i4", "f8")

    def depth(self, tier):
        return 2 if tier == "quick" else 3


class Addresses(Grid):
    """keys that are the addresses of other keys; arrays kept open."""
    name = "addresses"
    keys = ("k", "p_k", "p_p_k")

    def depth(self, tier):
        return 3 if tier == "quick" else 5

    def ops(self, tier):
        out = []
        for i, k in enumerate(self.keys):
            out += [("keep", 0, k, "i4"), ("get", 0, k), ("del", 0, k)]
        for k in self.keys[:2]:
            out += [("view", 0, k), ("set", 1, k, "f8"), ("del", 1, k)]
        return out + [("clear", 0)]

    def enabled(self, w, op):
        if op[0] == "view":
            return op[2] in w.model
        return super().enabled(w, op)

    def step(self, w, op):
        if op[0] not in ("get", "view"):
            return super().step(w, op)
        # the block stays open, in use by an array only for "view"
        got = attempt(lambda: w.pads[op[1]].get(op[2]))
        want = w.model.get(op[2])
        if want is None:
            expect(got == ("ok", None), "lookup", f"{op}: {show(got)}")
        else:
            expect(got[0] == "ok" and same_array(got[1], want), "lookup",
                   f"{op}: {show(got)}")
        if op[0] == "view":
            w.views.append(got[1])

    def world(self):
        w = super().world()
        w.views = []
        return w

    def canon(self, w):
        return super().canon(w) + repr([v.shape for v in w.views])


class NoLock(Grid):
    name = "config-nolock"
    config = {"no_lockout": True}
    validate = 10
    keys = ("k", "kk")
    values = ("i4", "f8")


class Many(Grid):
    """hundreds of keys with different metadata, then deletions."""
    name = "many-keys-long"
    validate = 0

    def depth(self, tier):
        return 1

    def ops(self, tier):
        return [("fill", n, stride)
                for n in ((30, 120) if tier == "quick" else (30, 120, 600))
                for stride in (1, 3, 7)]

    def enabled(self, w, op):
        return True

    def step(self, w, op):
        _, n, stride = op
        w.keys = []
        for i in range(n):
            value = np.full((i % 5, i % 3 + 1), i, dtype=("i4", "f8")[i % 2])
            w.pads[i % 2][f"key{i}"] = value
            w.model[f"key{i}"] = value
        odd = ODD_KEYS + EQUALS
        for i, key in enumerate(odd):
            value = np.full((2, i % 3), i, dtype=("i4", "f8")[i % 2])
            w.pads[i % 2][key] = value
            w.model[str(key)] = value
        for key in odd:
            got = attempt(lambda: w.pads[0][key])
            expect(got[0] == "ok" and same_array(got[1], w.model[str(key)]),
                   "lookup", f"[{key!r}] is {show(got)}")
        for key in odd[::stride]:
            if str(key) in w.model:
                del w.pads[1][key]
                del w.model[str(key)]
        for i in range(0, n, stride):
            del w.pads[(i + 1) % 2][f"key{i}"]
            del w.model[f"key{i}"]
        for i in range(0, n, 2 * stride):
            value = np.full((i % 7,), i, dtype="u2")
            w.pads[0][f"key{i}"] = value
            w.model[f"key{i}"] = value

    def canon(self, w):
        return None


SHAPES = {
    "i8": np.arange(6), "u1": np.arange(5, dtype="u1"),
    "square": np.arange(9, dtype="i4").reshape(3, 3),
    "wide": np.arange(8, dtype="f4").reshape(2, 4),
    "pages": np.arange(3000, dtype="i4"),
    "fields": np.array([(1, 2.5), (3, 4.5), (5, 6.5)],
                       dtype=[("a", "i4"), ("b", "f8")]),
}
TURNS = {
    "same": lambda a: a,
    "reversed": lambda a: a[::-1],
    "transposed": lambda a: a.T,
    "later": lambda a: a[1:],
    "sooner": lambda a: a[:-1],
    "second": lambda a: a[::2],
    "last column": lambda a: a[..., ::-1],
    "one for all": lambda a: np.broadcast_to(a[1:2], a.shape),
    "bytes": lambda a: a.view("u1") if a.dtype.names is None else a,
    "reshaped": lambda a: a.reshape(-1),
    "swapped": lambda a: a.view(a.dtype.newbyteorder()),
    "copied": lambda a: a.copy(),
    "plus": lambda a: a + a[::-1] if a.dtype.names is None else a["b"][::-1],
}


class Views(CaseHarness):
    """
    what get() gives (a view of the block) is changed about and stored again:
    on the real shared memory, where each view has a mapping of its own.
    """
    name = "views"

    def cases(self, tier):
        gets = ("get", "view", "item", "other handle")
        puts = ("item", "set", "keep", "other key", "other handle")
        every = list(itertools.product(gets, puts))
        few = list(zip(gets + ("get",), ("item", "other handle", "keep",
                                         "set", "other key")))
        for shape in SHAPES:
            for n, hows in ((1, every), (2, few)) if tier == "quick" else (
                    (1, every), (2, every), (3, few)):
                for turns in itertools.product(TURNS, repeat=n):
                    for how in hows:
                        yield shape, turns, how

    def prepare(self):
        self.prefix = f"mcview{os.getpid()}x"

    def explore(self, tier, report, *args):
        try:
            super().explore(tier, report, *args)
        finally:
            with simshm.really(self.prefix):
                pass            # of workers that were killed

    def run(self, case):
        shape, turns, (get, put) = case
        name = f"{self.prefix}{os.getpid()}"
        cls = load("codex.implements").GridPaper
        value = SHAPES[shape]
        with simshm.really(name):
            pad = cls(name, create=True)
            other = cls(name)
            want = {"k": value, "other": value}
            for key, v in want.items():
                pad[key] = v
            for turn in turns:
                try:
                    TURNS[turn](want["k"])
                except ValueError:
                    break
                if get == "view":
                    got = pad.__getitem__("k", copy=False)
                else:
                    got = {"get": pad.get, "item": pad.__getitem__,
                           "other handle": other.get}[get]("k")
                now = TURNS[turn](got)
                key = "other" if put == "other key" else "k"
                want[key] = TURNS[turn](want["k"]).copy()
                if put == "keep":
                    pad.__setitem__(key, now, keep_open=True)
                else:
                    {"item": pad.__setitem__, "other key": pad.__setitem__,
                     "set": pad.set, "other handle": other.set}[put](key, now)
                for k, v in want.items():
                    for p in (pad, other):
                        back = p[k]
                        expect(same_array(back, v), "view",
                               lambda: f"{case}: stored {turn} of the array "
                               f"at k at {key}; now {k} is {show(back)}, "
                               f"should be {v!r}")
                del got, now
            outcome = want["k"].tobytes()
            pad.close()
            left = [f for f in simshm.REAL_OS["listdir"]("/dev/shm")
                    if f.startswith(name)]
            expect(not left, "left", lambda: f"{case}: {left} after close()")
        return outcome, True


class GridLooks(Looks):
    store = "GridPaper"
    menu = ARRAYS
    equal = staticmethod(same_array)
    values = ("i4", "f8")


TWIN_ARRAYS = {
    **{d: np.zeros(2, dtype=d) for d in (
        "i8", "u8", "f8", ">i8", ">f8", "c8", "M8[s]", "M8[D]", "m8[s]",
        "S8", "U2", "V8", "f4,i4", "i4,f4")},
    "minus": -np.zeros(2), "nan": np.full(2, np.nan),
    "minus-nan": -np.full(2, np.nan),
    "named": np.zeros(2, dtype=[("a", "i4"), ("b", "f4")]),
    "renamed": np.zeros(2, dtype=[("b", "i4"), ("a", "f4")]),
    **{f"shape {s}": np.zeros(s, dtype="i8") for s in (
        (), (1,), (1, 1), (2, 1), (1, 2), (2, 2), (4,), (0,), (0, 2), (2, 0),
        (1, 2, 1))},
    "bools": np.zeros(16, dtype="?"), "bytes": np.zeros(16, dtype="u1"),
    "chars": np.zeros(16, dtype="S1"), "ints": np.zeros(16, dtype="i1"),
}


class ArrayTwins(Twins, Grid):
    """every array over every other one with the same bytes or values."""
    name = "twins"
    menu = TWIN_ARRAYS
    values = tuple(TWIN_ARRAYS)


def prefixed(p):
    class Prefixed(Grid):
        name = f"prefix-{p!r}"
        validate = 10
        keys = ("k", "kk")
        values = ("i4", "f8")
        prefix = p

        def depth(self, tier):
            return 2 if tier == "quick" else 3
    return Prefixed()


class AnonymousGrid(Anonymous, Grid):
    values = ("i4", "f8")

    def world(self):
        w = super().world()
        w.held = []
        return w


def harnesses(tier):
    return [AnonymousGrid(), Views(), Grid(), Unmerged(), Arrays(), ManyKeys(), NoLock(),
            UpdateFirst(), Addresses(), Many(), GridLooks(), ArrayTwins(), *map(prefixed, PREFIXES)]
