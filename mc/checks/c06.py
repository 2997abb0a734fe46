"""C06: a Sticky shows the object last stuck at its address."""
import random

from .. import simshm
from .. import world as W
from ..core import SeqHarness
from ..stores import MORE_TWINS, attempt, blocks, copies_state, dump, expect, same, show

LEVEL = "model_checking"
RULE = ("every history of sticking, reading, re-reading and pulling through "
        "several handles on two addresses, until no new state appears, or up "
        "to the stated depth without merging states; compared with two cells")
ASSUMPTIONS = ["operations do not overlap in time",
               "objects that pickle restores as equal objects"]

VALUES = {
    "one": 1,
    "list": ["long", {"value": 2.5}, ("x", b"\0" * 40)],
    "zero": 0,
    "none": None,
    "empty": "",
    "true": True,
    "bytes": b"\x80\x05N." * 30,
    "nested": {"a": [(), {}], 2: {3, 4}},
    "huge": list(range(3000)),
}
ADDRESSES = ("s", 7, "s_name")


class World:
    pass


class Stickies(SeqHarness):
    name = "closure"
    validate = 40
    values = ("one", "list", "zero")
    addresses = ("s", 7)
    handles = 2
    deep = 40

    def depth(self, tier):
        return self.deep if tier == "quick" else self.deep + 2

    def cls(self, ix):
        return W.copy(ix)["codex.implements"].Sticky

    def prepare(self):
        W.copy(0), W.copy(1)

    def world(self):
        W.reset()
        w = World()
        w.cells = {}
        w.handles = {}
        w.last = {}
        for a in self.addresses:
            for h in range(self.handles):
                w.handles[a, h] = self.cls(h % 2)(a)
                w.last[a, h] = []
        w.outcome = None
        return w

    def ops(self, tier):
        out = []
        for a in self.addresses:
            for h in range(self.handles):
                for v in self.values:
                    out.append(("stick", a, h, v))
                out += [("read", a, h), ("reread", a, h), ("pull", a, h)]
            out.append(("note", a, 1, self.values[0]))
            out.append(("note", a, 0, self.values[1]))
            out.append(("new", a, 0))
            out.append(("show", a, 1))
        return out

    def step(self, w, op):
        what, a, h = op[:3]
        s = w.handles[a, h]
        if what == "stick":
            value = VALUES[op[3]]
            got = attempt(s.stick, value)
            expect(got[0] == "ok", "stick-failed", f"{op}: {show(got)}")
            w.cells[a] = value
            w.last[a, h] = [value]
        elif what == "note":
            value = VALUES[op[3]]
            got = attempt(self.cls(h % 2).note, value, a)
            expect(got[0] == "ok", "note-failed", f"{op}: {show(got)}")
            w.handles[a, h] = got[1]
            w.cells[a] = value
            w.last[a, h] = [value]
        elif what == "new":
            w.handles[a, h] = self.cls(h % 2)(a)
            w.last[a, h] = []
        elif what == "read":
            self.plain(w, a, h, op)
        elif what == "reread":
            self.reread(w, a, h, f"{op}")
        elif what == "pull":
            got = attempt(s.pull)
            if a in w.cells:
                expect(got[0] == "ok", "pull-failed", f"{op}: {show(got)}")
                del w.cells[a]
        elif what == "show":
            got = attempt(lambda: repr(s))
            expect(got[0] == "ok" and got[1] in {
                "unread sticky", *(f"sticky: {v!r}" for v in w.last[a, h])},
                "shown", f"{op}: {show(got)}; last saw {w.last[a, h]}")
            got = attempt(lambda: str(s))
            expect(got[0] == "ok" and got[1] in {
                "unread sticky", *map(str, w.last[a, h])}, "shown",
                f"{op}: {show(got)}; last saw {w.last[a, h]}")

    def plain(self, w, a, h, op):
        got = attempt(w.handles[a, h].read)
        now = w.cells.get(a)
        expect(got[0] == "ok" and any(
            same(got[1], v) for v in [now] + w.last[a, h]), "read",
            f"{op}: {show(got)}; stuck there is {now!r}, this handle last "
            f"saw {w.last[a, h]!r}")
        if got[1] is not None:
            w.last[a, h] = [got[1]]

    def reread(self, w, a, h, label):
        got = attempt(lambda: w.handles[a, h].read(reread=True))
        now = w.cells.get(a)
        expect(got[0] == "ok" and same(got[1], now), "reread",
               f"{label}: {show(got)}, should be {now!r}")
        if a in w.cells and now is not None:
            w.last[a, h] = [now]

    def canon(self, w):
        return repr((sorted(blocks().items()), dump(w.handles),
                     copies_state(), w.cells, w.last))

    def audit(self, w):
        names = {n for n in simshm.FS.listing()}
        expect(len(names) == len(w.cells), "blocks",
               f"blocks {sorted(names)} for stuck addresses "
               f"{list(w.cells)}")
        for a, h in w.handles:
            self.plain(w, a, h, f"read at {a} by handle {h}")
        for a in self.addresses:
            fresh = self.cls(1)(a)
            got = attempt(fresh.read)
            now = w.cells.get(a)
            expect(got[0] == "ok" and same(got[1], now), "fresh-read",
                   f"a new handle on {a} reads {show(got)}, not {now!r}")
        for a, h in w.handles:
            self.reread(w, a, h, f"re-read at {a} by handle {h}")
        w.outcome = sorted(map(repr, w.cells.items()))


class Values(Stickies):
    """every value over every other one."""
    name = "all-values"
    values = tuple(VALUES)
    addresses = ("s",)
    deep = 3


VALUES.update(MORE_TWINS)


class Twins(Stickies):
    """every value over those that equal or resemble it."""
    name = "twins"
    values = tuple(MORE_TWINS)
    addresses = ("s",)
    deep = 2

    def ops(self, tier):
        return [op for op in super().ops(tier)
                if op[0] in ("stick", "read", "reread")]


class Unmerged(Stickies):
    name = "unmerged"
    merge = False
    validate = 10
    addresses = ("s",)
    values = ("one", "list")
    deep = 4


class Two(Stickies):
    name = "two-addresses"
    values = ("one", "list")
    deep = 4


class Odd(Stickies):
    """every address form stands for itself."""
    name = "addresses"
    addresses = ("s", "S", "s_name", "s ", 7, "07", 1.5, "é", "x" * 200, 0,
                 "00")
    handles = 1
    values = ("one", "list")
    deep = 2

    def ops(self, tier):
        return [op for op in super().ops(tier)
                if op[0] in ("stick", "pull", "reread", "note")
                and op[2] == 0]


class Anonymous(SeqHarness):
    """notes without an address: each keeps its own object, also when the
    random numbers repeat themselves."""
    name = "without-address"
    merge = False
    validate = 10

    def depth(self, tier):
        return 4 if tier == "quick" else 6

    def prepare(self):
        W.copy(0), W.copy(1)

    def world(self):
        W.reset()
        random.seed(1)
        w = World()
        w.notes = []
        w.outcome = None
        return w

    def ops(self, tier):
        out = [("seed",)]
        for h in range(2):
            out += [("note", h, v) for v in ("one", "list")]
        return out + [("pull", i) for i in range(2)]

    def step(self, w, op):
        if op[0] == "seed":
            random.seed(1)
        elif op[0] == "note":
            value = VALUES[op[2]]
            got = attempt(W.copy(op[1])["codex.implements"].Sticky.note, value)
            expect(got[0] == "ok", "note-failed", f"{op}: {show(got)}")
            w.notes.append([op[1], got[1], value, True])
        elif op[1] < len(w.notes) and w.notes[op[1]][3]:
            got = attempt(w.notes[op[1]][1].pull)
            expect(got[0] == "ok", "pull-failed", f"{op}: {show(got)}")
            w.notes[op[1]][3] = False

    def audit(self, w):
        live = [n for n in w.notes if n[3]]
        names = simshm.FS.listing()
        expect(len(names) == len(live), "blocks",
               f"blocks {names} for {len(live)} notes")
        for ix, note, value, _ in live:
            got = attempt(lambda: note.read(reread=True))
            expect(got[0] == "ok" and same(got[1], value), "reread",
                   f"a note of {value!r} without an address reads {show(got)}")
            other = W.copy(1 - ix)["codex.implements"].Sticky(note.address)
            got = attempt(other.read)
            expect(got[0] == "ok" and same(got[1], value), "read-elsewhere",
                   f"a note of {value!r} without an address reads {show(got)}"
                   f" in another process")
        w.outcome = [(n[0], n[2], n[3]) for n in w.notes]


def harnesses(tier):
    one = Stickies()
    one.addresses = ("s",)
    return [one, Values(), Twins(), Two(), Unmerged(), Odd(), Anonymous()]
