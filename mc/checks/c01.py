"""C01: a Notepad is one dictionary shared by all its handles."""
import random

from .. import simshm
from .. import world as W
from ..core import SeqHarness
from ..stores import (
    ABSENT, ALIKE, EQUALS, MORE_TWINS, TWINS, attempt, audit_dict, blocks, copies_state, dump, expect, is_a,
    same, show, view, VIEWS,
)

LEVEL = "model_checking"
RULE = ("every history of operations through two handles up to the stated "
        "depth (states merged only when shared memory, handle objects and "
        "module state are all equal), each step and the resulting contents "
        "compared with a dict")
ASSUMPTIONS = [
    "operations do not overlap in time (C05 covers overlapping ones)",
    "how often a lock was taken before does not matter (checked to depth 3 "
    "without merging states)",
]

VALUES = {
    "one": 1,
    "none": None,
    "list": ["long", {"value": 2.5}, ("x", b"\0" * 40)],
    "true": True,
    "empty": "",
}


ODD_KEYS = [
    "a b", "a.b", "a_b", "a_", "_a", "A", "a", "é", "日本", "a\nb", "count",
    "key_0", "name", "0", "00", "-1", "1.5", "None", "True", "()", "%s", "*",
    "x" * 150, "x" * 151, "é" * 60, " ", "lock", "gate", "Index", "i",
] + ALIKE


class World:
    pass


class NotepadHistories(SeqHarness):
    """two handles on one prefix, and a bystander store."""
    name = "two-handles"
    validate = 60
    keys = ("k", "kk", 3)
    values = ("one", "list", "none")
    config = {}
    listing = True
    store = "Notepad"
    prefix = "p"
    menu = VALUES
    equal = staticmethod(same)

    def depth(self, tier):
        return 3 if tier == "quick" else 5

    def pad(self, ix, create=False):
        mod = W.copy(ix)["codex.implements"]
        kwargs = dict(self.config)
        if "index_type" in kwargs:
            kwargs["index_type"] = getattr(mod, kwargs["index_type"])
        if "codec_factory" in kwargs:
            kwargs["codec_factory"] = getattr(
                W.copy(ix)["codex.codecs"], kwargs["codec_factory"])
        return getattr(mod, self.store)(self.prefix, create=create, **kwargs)

    def prepare(self):
        W.copy(0), W.copy(1)

    def world(self):
        W.reset()
        w = World()
        w.pads = [self.pad(0, True), self.pad(1)]
        w.model = {}
        w.outcome = None
        return w

    def ops(self, tier):
        out = []
        for h in (0, 1):
            for k in self.keys:
                for v in self.values:
                    out.append(("set", h, k, v))
                out.append(("del", h, k))
            out.append(("look", h))
            out.append(("clear", h))
        out.append(("new", 0, self.keys[0], self.values[1]))
        out.append(("new", 1, self.keys[1], self.values[0]))
        out.append(("method", 1, self.keys[0], self.values[0]))
        out.append(("reopen", 1))
        return out

    def enabled(self, w, op):
        if op[0] == "clear" and not self.listing:
            return False
        return True

    def step(self, w, op):
        what, h = op[:2]
        pad = w.pads[h]
        if what in ("set", "new", "method"):
            key, value = op[2], self.menu[op[3]]
            if what == "set":
                def do():
                    pad[key] = value
            elif what == "method":
                def do():
                    pad.set(key, value)
            else:
                def do():
                    pad.set(key, value, exists_ok=False)
            got = attempt(do)
            if what == "new" and str(key) in w.model:
                expect(is_a(got, "KeyError"), "exists-ok",
                       f"{op}: {show(got)}, should be KeyError")
            else:
                expect(got[0] == "ok", "set-failed", f"{op}: {show(got)}")
                w.model[str(key)] = value
        elif what == "del":
            def do():
                del pad[op[2]]
            got = attempt(do)
            if str(op[2]) in w.model:
                expect(got[0] == "ok", "del-failed", f"{op}: {show(got)}")
                del w.model[str(op[2])]
            else:
                expect(is_a(got, "KeyError"), "del-missing",
                       f"{op}: {show(got)}, should be KeyError")
        elif what == "clear":
            got = attempt(pad.clear)
            expect(got[0] == "ok", "clear-failed", f"{op}: {show(got)}")
            w.model.clear()
        elif what == "look":
            audit_dict([(f"handle {h}", pad)], w.model, self.keys,
                       listing=self.listing, equal=self.equal)
        elif what == "reopen":
            got = attempt(self.pad, h)
            expect(got[0] == "ok", "reopen-failed", f"{op}: {show(got)}")
            w.pads[h] = got[1]

    def canon(self, w):
        return repr((sorted(blocks().items()), dump(w.pads), copies_state(),
                     sorted(w.model)))

    def audit(self, w):
        third = attempt(self.pad, 1)
        expect(third[0] == "ok", "open-failed", f"opening: {show(third)}")
        pads = [("handle 0", w.pads[0]), ("handle 1", w.pads[1]),
                ("a new handle", third[1])]
        audit_dict(pads, w.model, self.keys, listing=self.listing,
                   equal=self.equal)
        w.outcome = sorted(w.model.items(), key=repr)


class Unmerged(NotepadHistories):
    """every history is kept: nothing rests on the state identity."""
    name = "two-handles-unmerged"
    merge = False
    validate = 20
    keys = ("k", "kk")
    values = ("one", "list")

    def depth(self, tier):
        return 4 if tier == "quick" else 5

    def ops(self, tier):
        return [
            ("set", 0, "k", "one"), ("set", 1, "k", "list"),
            ("set", 1, "kk", "one"), ("set", 0, "kk", "list"),
            ("del", 0, "k"), ("del", 1, "kk"), ("del", 1, "k"),
            ("clear", 0), ("look", 0), ("look", 1), ("reopen", 1),
        ]


class Closure(NotepadHistories):
    """
    all reachable contents of shared memory: histories that leave the same
    blocks and module state are merged, whatever the handles remember (what
    they remember is in the identity of the harnesses above).
    """
    name = "all-contents"

    def depth(self, tier):
        return 40

    def canon(self, w):
        return repr((sorted(blocks().items()), copies_state(),
                     sorted(w.model)))


class ManyKeys(Closure):
    """one value per key, more keys: every order of the index."""
    name = "many-keys"
    keys = ("a", "b", "ab", "ba", "c")
    values = ("one",)

    def ops(self, tier):
        keys = self.keys[:4] if tier == "quick" else self.keys
        out = [("set", 0, k, "one") for k in keys]
        out += [("del", 1, k) for k in keys]
        return out + [("clear", 1), ("reopen", 1)]


class Looks(NotepadHistories):
    """each way of looking comes first after a change, and after others."""
    name = "looks"
    validate = 20

    def depth(self, tier):
        return 5 if tier == "quick" else 7

    def ops(self, tier):
        out = [("set", 0, k, v) for k in ("k", "kk")
               for v in self.values[:2]]
        out += [("del", 0, "k"), ("del", 0, "kk"), ("clear", 0)]
        return out + [("view", 1, which) for which in VIEWS]

    def step(self, w, op):
        if op[0] != "view":
            return super().step(w, op)
        view(w.pads[op[1]], op[2], w.model, f"handle {op[1]}", self.equal)

    def audit(self, w):
        w.outcome = sorted(w.model)


class Twins(NotepadHistories):
    """every value over every other one that equals or resembles it."""
    name = "twins"
    validate = 20
    keys = ("k",)
    menu = MORE_TWINS
    values = tuple(MORE_TWINS)

    def depth(self, tier):
        return 2 if tier == "quick" else 3

    def ops(self, tier):
        out = [("set", 0, "k", v) for v in self.values]
        out += [("method", 1, "k", v) for v in self.values]
        return out + [("del", 1, "k")]


class JsonTwins(Twins):
    name = "twins-json"
    config = {"codec_factory": "json_codec_factory"}
    menu = TWINS
    values = tuple(TWINS)


def prefixed(p):
    class Prefixed(NotepadHistories):
        name = f"prefix-{p!r}"
        validate = 10
        keys = ("k", "kk")
        values = ("one", "list")
        prefix = p

        def depth(self, tier):
            return 3 if tier == "quick" else 4
    return Prefixed()


class Anonymous(NotepadHistories):
    """opened without a prefix: it makes one up, by which others open it."""
    name = "anonymous"
    validate = 10
    keys = ("k", "kk")
    values = ("one", "list")

    def depth(self, tier):
        return 3 if tier == "quick" else 4

    def world(self):
        W.reset()
        w = World()
        random.seed(10)
        mod = W.copy(0)["codex.implements"]
        got = attempt(getattr(mod, self.store), create=True)
        expect(got[0] == "ok", "anonymous", f"without prefix: {show(got)}")
        before = blocks()
        other = getattr(mod, self.store)(create=True)
        expect(other.prefix != got[1].prefix, "anonymous",
               "two stores made up the same prefix")
        other.close()
        expect(blocks() == before, "anonymous",
               "closing another store changed what there is")
        self.prefix = got[1].prefix
        w.pads = [got[1], self.pad(1)]
        w.model = {}
        w.outcome = None
        return w


PREFIXES = (0, "", 7, "index", "p_index", "p q", 1.5)


def variant(label, config, listing=True, values=("one", "list")):
    class Variant(NotepadHistories):
        name = f"config-{label}"
        validate = 10
        keys = ("k", "kk")

        def depth(self, tier):
            return 3 if tier == "quick" else 5
    Variant.config = config
    Variant.listing = listing
    Variant.values = values
    return Variant()


class Many(SeqHarness):
    """one long history: hundreds of keys, then deletions in every third."""
    name = "many-keys-long"
    validate = 0

    def depth(self, tier):
        return 1

    def ops(self, tier):
        return [("fill", n, stride) for n in
                ((40, 300) if tier == "quick" else (40, 300, 1500))
                for stride in (1, 3, 7)]

    def world(self):
        W.reset()
        return World()

    def step(self, w, op):
        _, n, stride = op
        mod = W.copy(0)["codex.implements"]
        pad = mod.Notepad("p", create=True)
        other = W.copy(1)["codex.implements"].Notepad("p")
        model = {}
        for i in range(n):
            (pad, other)[i % 2][f"key{i}"] = i * i
            model[f"key{i}"] = i * i
        for i in range(0, n, stride):
            del (other, pad)[i % 2][f"key{i}"]
            del model[f"key{i}"]
        for i in range(0, n, 2 * stride):
            pad[f"key{i}"] = str(i)
            model[f"key{i}"] = str(i)
        odd = ODD_KEYS + EQUALS
        for i, key in enumerate(odd):
            (pad, other)[i % 2][key] = ("odd", i)
            model[str(key)] = ("odd", i)
        for key in odd:
            expect(attempt(lambda: pad[key]) == ("ok", model[str(key)]),
                   "lookup", f"[{key!r}] is not {model[str(key)]}")
        for key in odd[::stride]:
            if str(key) in model:
                del pad[key]
                del model[str(key)]
        audit_dict([("handle 0", pad), ("handle 1", other)], model,
                   ["key-1", *odd])


def harnesses(tier):
    return [
        NotepadHistories(), Unmerged(), Closure(), ManyKeys(),
        variant("metatag", {"index_type": "MetaTagIndex"}),
        variant("nolock", {"no_lockout": True}),
        variant("update-on-init", {"update_on_init": True}),
        variant("fake-index", {"index_type": "FakeIndex"}, listing=False),
        variant("json", {"codec_factory": "json_codec_factory"},
                values=("one", "empty", "none")),
        variant("ast", {"codec_factory": "ast_codec_factory"},
                values=("one", "list", "true")),
        Many(), Looks(), Anonymous(), Twins(), JsonTwins(), *map(prefixed, PREFIXES),
    ]
