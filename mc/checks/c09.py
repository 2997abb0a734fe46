"""C09: a refused operation changes nothing and frees the lock."""
import numpy as np

from .. import simshm
from .. import world as W
from ..core import SeqHarness
from ..stores import (
    attempt, audit_dict, blocks, copies_state, dump, expect, same, same_array,
    show,
)

LEVEL = "model_checking"
RULE = ("every history up to the stated depth of ordinary operations and "
        "refused ones of every kind, through two handles; after each, the "
        "contents by every handle are those of a dict that ignored the "
        "refused operations, no operation waits, and closing leaves no block")
ASSUMPTIONS = [
    "operations do not overlap in time",
    "refusals raise an Exception (an interrupt is not a refusal)",
]


class Stubborn:
    """can't be encoded."""
    def __init__(self, ex):
        self.ex = ex

    def __reduce_ex__(self, _protocol):
        raise self.ex

    def __str__(self):
        raise self.ex

    __repr__ = object.__repr__


BAD_KEYS = {
    "slash": "a/b", "nul": "a\0b", "long": "x" * 300, "surrogate": "\ud800",
    "empty": "", "reserved": "index", "reserved-longer": "index_key_0",
    "dots": "/../k", "unprintable": Stubborn(ValueError("no")),
}
BAD_VALUES = {
    "lambda": lambda: 1,
    "raises": Stubborn(RuntimeError("can't pickle")),
    "raises-file-exists": Stubborn(FileExistsError("can't pickle")),
    "raises-not-found": Stubborn(FileNotFoundError("can't pickle")),
    "raises-key": Stubborn(KeyError("can't pickle")),
    "deep": [[{"a": Stubborn(RuntimeError("deep"))}]],
    "set": {1, 2},
    "object": np.array([1, None], dtype=object),
    "list": [1, 2],
    "none": None,
    "text": "array",
}


class World:
    pass


class Refusals(SeqHarness):
    kind = "Notepad"
    config = {}
    good = {"one": 1, "list": ["long", {"value": 2.5}, ("x", b"\0" * 40)]}
    bad_values = ("lambda", "raises", "deep", "raises-file-exists",
                  "raises-not-found", "raises-key")
    bad_keys = ("slash", "nul", "long", "surrogate", "reserved",
                "reserved-longer", "unprintable", "empty", "dots")
    equal = staticmethod(same)
    deep = 3
    validate = 15
    keys = ("k", "kk")

    def depth(self, tier):
        return self.deep if tier == "quick" else self.deep + 2

    def open(self, ix, name="p", create=False):
        mod = W.copy(ix)["codex.implements"]
        kwargs = dict(self.config)
        if "index_type" in kwargs:
            kwargs["index_type"] = getattr(mod, kwargs["index_type"])
        if "codec_factory" in kwargs:
            kwargs["codec_factory"] = getattr(
                W.copy(ix)["codex.codecs"], kwargs["codec_factory"])
        return getattr(mod, self.kind)(name, create=create, **kwargs)

    def prepare(self):
        W.copy(0), W.copy(1)

    def world(self):
        W.reset()
        w = World()
        w.other = self.open(1, "other", True)
        self.fill_other(w)
        w.neighbour = {k: v for k, v in simshm.FS.snapshot().items()}
        w.pads = [self.open(0, create=True), self.open(1)]
        w.model, w.outcome, w.refused = {}, None, 0
        return w

    def fill_other(self, w):
        w.other["k"] = self.good["one"]

    def ops(self, tier):
        out = []
        for h in (0, 1):
            for k in self.keys:
                for v in self.good:
                    out.append(("set", h, k, v))
                out.append(("del", h, k))
        for k in self.keys:
            for v in self.bad_values:
                out.append(("bad-value", 0, k, v))
            out.append(("bad-value", 1, k, self.bad_values[0]))
            out.append(("bad-value-new", 1, k, self.bad_values[0]))
            out.append(("exists", 0, k, "one"))
            out.append(("exists", 1, k, "list"))
            out += [("get", 1, k), ("meta", 0, k)]
        for i, k in enumerate(self.bad_keys):
            out.append(("bad-key", i % 2, k, "one"))
            out.append(("bad-del", 1 - i % 2, k))
            out.append(("bad-look", i % 2, k))
        return out

    def enabled(self, w, op):
        if op[0] == "exists":
            return str(op[2]) in w.model
        if op[0] == "get":
            return str(op[2]) not in w.model
        if op[0] == "del":
            return True
        if op[0] == "meta":
            return self.kind == "Notepad"
        return True

    # -- how to do things to this kind of store -----------------------------
    def put(self, pad, key, value, **kwargs):
        if kwargs:
            return pad.set(key, value, **kwargs)
        pad[key] = value

    def drop(self, pad, key):
        del pad[key]

    def look(self, pad, key):
        return pad[key]

    def step(self, w, op):
        what, h = op[:2]
        pad = w.pads[h]
        if what == "set":
            got = attempt(self.put, pad, op[2], self.good[op[3]])
            expect(got[0] == "ok", "set-failed", f"{op}: {show(got)}")
            w.model[str(op[2])] = self.good[op[3]]
            return
        if what == "del" and str(op[2]) in w.model:
            got = attempt(self.drop, pad, op[2])
            expect(got[0] == "ok", "del-failed", f"{op}: {show(got)}")
            del w.model[str(op[2])]
            return
        before = blocks()
        if what in ("del", "bad-del"):
            key = BAD_KEYS[op[2]] if what == "bad-del" else op[2]
            got = attempt(self.drop, pad, key)
        elif what in ("get", "bad-look"):
            key = BAD_KEYS[op[2]] if what == "bad-look" else op[2]
            got = attempt(self.look, pad, key)
        elif what == "bad-value":
            got = attempt(self.put, pad, op[2], BAD_VALUES[op[3]])
        elif what == "bad-value-new":
            got = attempt(lambda: self.put(
                pad, op[2], BAD_VALUES[op[3]], exists_ok=False))
        elif what == "exists":
            got = attempt(lambda: self.put(
                pad, op[2], self.good[op[3]], exists_ok=False))
        elif what == "meta":
            got = attempt(lambda: pad.set(op[2], 5, meta={1, 2}))
        elif what == "bad-key":
            got = attempt(self.put, pad, BAD_KEYS[op[2]], self.good[op[3]])
        if op[2] in ("empty", "long") and got[0] == "ok":
            # a store may well learn to accept these
            if what == "bad-key":
                w.model[str(BAD_KEYS[op[2]])] = self.good[op[3]]
            elif what == "bad-del":
                w.model.pop(str(BAD_KEYS[op[2]]), None)
            return
        if got[0] == "ok" and op[0] in ("bad-look", "bad-value"):
            # reading through a reserved address is nobody's promise
            expect(op[0] == "bad-look", "accepted",
                   f"{op}: {show(got)}, should be refused")
        else:
            expect(got[0] != "ok", "accepted",
                   f"{op}: {show(got)}, should be refused")
        w.refused += 1

    def canon(self, w):
        return repr((sorted(blocks().items()), dump(w.pads), copies_state(),
                     sorted(w.model)))

    def audit(self, w):
        third = attempt(self.open, 1)
        expect(third[0] == "ok", "open-failed", f"opening: {show(third)}")
        pads = [("handle 0", w.pads[0]), ("handle 1", w.pads[1]),
                ("a new handle", third[1])]
        self.compare(pads, w.model)
        for k in self.keys:        # everything still works
            for h in (1, 0):
                v = list(self.good)[h]
                got = attempt(self.put, w.pads[h], k, self.good[v])
                expect(got[0] == "ok", "set-failed",
                       f"setting {k!r} afterwards: {show(got)}")
                w.model[str(k)] = self.good[v]
        self.compare(pads, w.model)
        now = {k: v for k, v in simshm.FS.snapshot().items()
               if k in w.neighbour}
        expect(now == w.neighbour, "bystander",
               f"another store changed: {set(now.items()) ^ set(w.neighbour.items())}")
        got = attempt(w.pads[0].close)
        expect(got[0] == "ok", "close-failed", f"closing: {show(got)}")
        left = set(simshm.FS.listing()) - set(w.neighbour)
        expect(not left, "left-behind", f"closing leaves {sorted(left)}")
        w.outcome = (sorted(w.model), w.refused)

    def compare(self, pads, model):
        audit_dict(pads, model, self.keys, equal=self.equal)


class Grid(Refusals):
    kind = "GridPaper"
    good = {"one": np.array([1, 2], dtype="i4"),
            "list": np.arange(12.).reshape(3, 4)}
    bad_values = ("object", "list", "none", "text")
    equal = staticmethod(same_array)


class Index(Refusals):
    kind = "TagIndex"
    good = {"one": None}
    bad_values = ("list",)
    bad_keys = ("surrogate", "unprintable", "empty")

    def fill_other(self, w):
        w.other.add("k")

    def ops(self, tier):
        return [op for op in super().ops(tier)
                if op[0] not in ("meta", "get", "bad-look")]

    def put(self, s, k, v, **kwargs):
        if v is None:
            s.add(k, **kwargs)
        else:
            s.add(k, v, **kwargs)

    def drop(self, s, k):
        s.remove(k)

    def step(self, w, op):
        if op[0] == "exists":
            op = op[:3] + ("one",)
        super().step(w, op)

    def audit(self, w):
        self.good = {"one": None, "list": None}
        try:
            super().audit(w)
        finally:
            self.good = type(self).good

    def compare(self, pads, model):
        for name, s in pads:
            got = attempt(lambda: sorted(s.update()))
            expect(got == ("ok", sorted(model)), "listing",
                   f"update() by {name}: {show(got)}, not {sorted(model)}")


class Meta(Index):
    kind = "MetaTagIndex"
    good = {"one": {"n": 1}, "list": ["a", "b", "c"] * 9}
    bad_values = ("lambda", "set", "object", "deep")
    bad_keys = ("surrogate", "unprintable", "empty")

    def fill_other(self, w):
        w.other.add("k", 5)

    def ops(self, tier):
        return [op for op in Refusals.ops(self, tier)
                if op[0] not in ("meta", "bad-look")]

    def step(self, w, op):
        Refusals.step(self, w, op)

    def audit(self, w):
        Refusals.audit(self, w)

    def compare(self, pads, model):
        super().compare(pads, model)
        for name, s in pads:
            got = attempt(lambda: dict(s.items()))
            expect(got == ("ok", model), "items",
                   f"items() by {name}: {show(got)}, not {model}")


def make(base, label, config=None, **over):
    class Made(base):
        pass
    for k, v in over.items():
        setattr(Made, k, v)
    h = Made()
    h.name, h.config = label, config or {}
    return h


def harnesses(tier):
    return [
        make(Refusals, "notepad"),
        make(Refusals, "notepad-meta", {"index_type": "MetaTagIndex"}),
        make(Refusals, "notepad-json",
             {"codec_factory": "json_codec_factory"},
             good={"one": 1, "list": ["a"] * 30},
             bad_values=("set", "lambda", "raises", "object"), deep=2),
        make(Refusals, "notepad-nolock", {"no_lockout": True}, deep=2),
        make(Grid, "gridpaper"),
        make(Grid, "gridpaper-nolock", {"no_lockout": True}, deep=2),
        make(Index, "tag-index", deep=4),
        make(Meta, "meta-index", deep=3),
    ]
