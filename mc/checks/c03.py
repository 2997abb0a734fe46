"""C03: shared indexes list exactly the keys added and not removed."""
import json
import random

from .. import simshm
from .. import world as W
from ..core import CaseHarness, SeqHarness
from ..stores import (
    ALIKE, EQUALS, TWINS, attempt, blocks, copies_state, dump, expect, is_a, same, show,
)

LEVEL = "model_checking"
RULE = ("every history of additions, removals and listings through two "
        "handles, until no new state appears or up to the stated depth, "
        "compared with a dict of the keys and their metadata")
ASSUMPTIONS = [
    "operations do not overlap in time (C05 covers overlapping ones)",
    "keys have distinct str() forms, or the same one and the same meaning",
]

META = {
    "m": {"name": "x", "shape": [1, 2]},
    "n": 0,
    "long": ["metadata", None, 1.5, {"deep": ["er"] * 6}],
    "none": None,
}
META.update((k, v) for k, v in TWINS.items() if v is not None)


class World:
    pass


class Index(SeqHarness):
    name = "tag-index"
    kind = "TagIndex"
    validate = 40
    keys = ("a", "b", "ab")
    config = {}
    metas = ()

    def depth(self, tier):
        return 40

    def open(self, ix, create=False):
        mod = W.copy(ix)["codex.implements"]
        return getattr(mod, self.kind)("i", create=create, **self.config)

    def prepare(self):
        W.copy(0), W.copy(1)

    def world(self):
        W.reset()
        w = World()
        w.ix = [self.open(0, True), self.open(1)]
        w.model = {}
        w.outcome = None
        return w

    def ops(self, tier):
        out = []
        for h in (0, 1):
            for k in self.keys:
                out.append(("add", h, k, None))
                for m in self.metas:
                    out.append(("add", h, k, m))
                out.append(("del", h, k))
        out += [("new", 0, self.keys[0], None), ("new", 1, self.keys[1], None),
                ("remove", 1, self.keys[0]), ("look", 0), ("look", 1),
                ("reopen", 1)]
        return out

    def step(self, w, op):
        what, h = op[:2]
        ix = w.ix[h]
        if what in ("add", "new"):
            key, meta = op[2], META[op[3] or "none"]
            kwargs = {} if what == "add" else {"exists_ok": False}
            if meta is None:
                got = attempt(ix.add, key, **kwargs)
            else:
                got = attempt(ix.add, key, meta, **kwargs)
            if what == "new" and str(key) in w.model:
                expect(is_a(got, "FileExistsError"), "exists-ok",
                       f"{op}: {show(got)}, should be FileExistsError")
            else:
                expect(got[0] == "ok", "add-failed", f"{op}: {show(got)}")
                if meta is not None:
                    w.model[str(key)] = meta
                else:
                    w.model.setdefault(str(key), None)
        elif what in ("del", "remove"):
            key = op[2]
            if what == "del":
                got = attempt(ix.__delitem__, key)
            else:
                got = attempt(ix.remove, key)
            if str(key) in w.model:
                expect(got[0] == "ok", "del-failed", f"{op}: {show(got)}")
                del w.model[str(key)]
            else:
                expect(is_a(got, "KeyError"), "del-missing",
                       f"{op}: {show(got)}, should be KeyError")
        elif what == "look":
            self.compare(w, f"handle {h}", ix)
        elif what == "reopen":
            got = attempt(self.open, h)
            expect(got[0] == "ok", "open-failed", f"{op}: {show(got)}")
            w.ix[h] = got[1]

    def compare(self, w, name, ix):
        got = attempt(lambda: list(ix.update()))
        expect(got[0] == "ok" and sorted(map(repr, got[1])) == sorted(
            map(repr, w.model)), "listing",
            f"update() by {name}: {show(got)}, should be {list(w.model)}")

    def canon(self, w):
        return repr((sorted(blocks().items()), dump(w.ix), copies_state(),
                     w.model))

    def audit(self, w):
        self.compare(w, "handle 0", w.ix[0])
        self.compare(w, "handle 1", w.ix[1])
        third = attempt(self.open, 1)
        expect(third[0] == "ok", "open-failed", f"opening: {show(third)}")
        self.compare(w, "a new handle", third[1])
        w.outcome = sorted(w.model.items())


class Meta(Index):
    name = "meta-index"
    kind = "MetaTagIndex"
    metas = ("m", "long")
    validate = 40

    def depth(self, tier):
        return 3 if tier == "quick" else 5

    def compare(self, w, name, ix):
        super().compare(w, name, ix)
        got = attempt(lambda: list(ix.keys()))
        expect(got[0] == "ok" and sorted(map(repr, got[1])) == sorted(
            map(repr, w.model)), "keys",
            f"keys() by {name}: {show(got)}, should be {list(w.model)}")
        keys = got[1]
        got = attempt(lambda: list(ix.items()))
        expect(got[0] == "ok" and sorted(map(repr, got[1])) == sorted(
            map(repr, w.model.items())), "items",
            f"items() by {name}: {show(got)}, should be {w.model}")
        got = attempt(lambda: list(ix.values()))
        expect(got[0] == "ok" and same(
            got[1], [w.model[k] for k in keys]),
               "values", f"values() by {name}: {show(got)}, for keys {keys} "
                         f"of {w.model}")
        for k, v in w.model.items():
            got = attempt(lambda: ix[k])
            if v is None:
                expect(got[0] != "ok" or not got[1], "lookup",
                       f"[{k!r}] by {name}: {show(got)}: key {k!r} has no "
                       "metadata")
            else:
                expect(got[0] == "ok" and same(json.loads(got[1]), v), "lookup",
                       f"[{k!r}] by {name}: {show(got)}, should be {v!r}")
        for k in self.keys:
            if str(k) not in w.model:
                got = attempt(lambda: ix[k])
                expect(is_a(got, "KeyError"), "lookup-missing",
                       f"[{k!r}] by {name}: {show(got)}, not KeyError")


def closing(base, label, cap=40, **over):
    """merge on the contents of shared memory alone, until closed."""
    class Closed(base):
        name = label

        def depth(self, tier):
            return cap

        def canon(self, w):
            return repr((sorted(blocks().items()), copies_state(), w.model))
    for k, v in over.items():
        setattr(Closed, k, v)
    return Closed()


class Unmerged(Index):
    name = "tag-index-unmerged"
    merge = False
    validate = 20

    def depth(self, tier):
        return 5 if tier == "quick" else 6

    def ops(self, tier):
        return [("add", 0, "a", None), ("add", 1, "b", None),
                ("add", 0, "c", None), ("del", 1, "a"), ("del", 0, "b"),
                ("del", 1, "c"), ("look", 1)]


class MetaUnmerged(Meta):
    name = "meta-index-unmerged"
    merge = False
    validate = 20

    def depth(self, tier):
        return 4 if tier == "quick" else 6

    def ops(self, tier):
        return [("add", 0, "a", "m"), ("add", 1, "b", "long"),
                ("add", 0, "c", None), ("del", 1, "a"), ("del", 0, "b"),
                ("del", 1, "c"), ("look", 1)]


class Looks(Meta):
    """each way of looking comes first after a change, and after others."""
    name = "looks"
    validate = 20
    VIEWS = ("update", "keys", "values", "items", "lookup")

    def depth(self, tier):
        return 5 if tier == "quick" else 7

    def ops(self, tier):
        out = [("add", 0, k, m) for k in ("a", "b") for m in ("m", "long")]
        out += [("del", 0, "a"), ("del", 0, "b"), ("add", 0, "c", None)]
        return out + [("view", 1, which) for which in self.VIEWS]

    def step(self, w, op):
        if op[0] != "view":
            return super().step(w, op)
        ix, which = w.ix[1], op[2]
        got = attempt({
            "update": lambda: list(ix.update()),
            "keys": lambda: list(ix.keys()),
            "values": lambda: list(ix.values()),
            "items": lambda: list(ix.items()),
            "lookup": lambda: [json.loads(ix[k]) for k, v in w.model.items()
                               if v is not None]}[which])
        want = {"values": list(w.model.values()),
                "items": list(w.model.items()),
                "lookup": [v for v in w.model.values() if v is not None]}.get(
                    which, list(w.model))
        expect(got[0] == "ok" and sorted(map(repr, got[1])) == sorted(
            map(repr, want)), which,
            f"{which}() by handle 1: {show(got)}, should be {want}")

    def audit(self, w):
        w.outcome = sorted(w.model)


class Twins(Meta):
    """all metadata over all others that equal or resemble it."""
    name = "twins"
    keys = ("a",)
    metas = tuple(k for k, v in TWINS.items() if v is not None)
    validate = 20

    def depth(self, tier):
        return 2 if tier == "quick" else 3

    def ops(self, tier):
        out = [("add", h, "a", m) for h in (0, 1) for m in self.metas]
        return out + [("add", 1, "a", None), ("del", 1, "a")]


def variant(base, label, config, deep=4):
    class Variant(base):
        name = label
        validate = 10

        def depth(self, tier):
            return deep if tier == "quick" else deep + 2
    Variant.config = config
    return Variant()


ODD = ["a b", "a.b", "key_0", "name", "é", "日本", "x" * 5000, 0, 1.5,
       None, True, ("t", 1), b"bytes", "bytes", "A", "a", "0x", "\n", "/",
       "a/b", "\x01"] + ALIKE + EQUALS


class Many(Meta):
    """hundreds of keys of every kind; removals in several patterns."""
    name = "many-keys-long"
    validate = 0

    def depth(self, tier):
        return 1

    def ops(self, tier):
        return [("fill", kind, n, stride)
                for kind in ("TagIndex", "MetaTagIndex")
                for n in ((0, 60, 300) if tier == "quick" else (0, 300, 1500))
                for stride in (1, 2, 7)]

    def step(self, w, op):
        _, kind, n, stride = op
        self.kind = kind
        W.reset()
        w.ix = [self.open(0, True), self.open(1)]
        self.keys = ["absent", -1]
        keys = [f"key{i}" for i in range(n)] + ODD
        for i, k in enumerate(keys):
            if kind == "TagIndex":
                w.ix[i % 2].add(k)
                w.model[str(k)] = None
            else:
                w.ix[i % 2].add(k, {"i": i})
                w.model[str(k)] = {"i": i}
        for i in range(0, len(keys), stride):
            if attempt(w.ix[(i + 1) % 2].remove, keys[i])[0] == "ok":
                w.model.pop(str(keys[i]), None)
        for i in range(0, len(keys), 2 * stride):
            w.ix[0].add(keys[i])
            w.model.setdefault(str(keys[i]), None)

    def compare(self, w, name, ix):
        if self.kind == "TagIndex":
            Index.compare(self, w, name, ix)
        else:
            Meta.compare(self, w, name, ix)

    def canon(self, w):
        return None


class Alike(CaseHarness):
    """keys whose blocks a shortened hash or name would confuse."""
    name = "alike"
    KINDS = {
        "numbers": lambda n: map(str, range(n)),
        "numbered": lambda n: (f"key_{i}" for i in range(n)),
        "long": lambda n: ("k" * 100 + str(i) for i in range(n // 10)),
    }

    def cases(self, tier):
        for kind in ("TagIndex", "MetaTagIndex"):
            for keys in self.KINDS:
                yield kind, keys, 300000 if tier == "quick" else 3000000

    def run(self, case):
        kind, keys, n = case
        W.reset()
        ix = getattr(W.copy(0)["codex.implements"], kind)("i", create=True)
        # where it looks for keys; it is the outcome that counts, though
        seen, pairs, at = {}, [], getattr(ix, "hash_address", str)
        if attempt(at, "k")[0] != "ok":
            at = str
        for key in self.KINDS[keys](n):
            other = seen.setdefault(at(key), key)
            if other != key:
                pairs.append((other, key))
                if len(pairs) == 3:
                    break
        for one, two in pairs or [("1", "2")]:
            ix.add(one)
            ix.add(two)
            got = attempt(lambda: sorted(ix.update()))
            expect(got == ("ok", sorted([one, two])), "alike",
                   f"with {one!r} and {two!r} added it lists {show(got)}")
            ix.remove(one)
            got = attempt(ix.update)
            expect(got == ("ok", [two]), "alike",
                   f"{one!r} was removed from {one!r} and {two!r}, and it "
                   f"lists {show(got)}")
            ix.remove(two)
        return (kind, keys, len(pairs)), True


def anonymous(base):
    class Anonymous(base):
        """made without a name: it makes one up, by which others open it."""
        name = f"{base.name}-anonymous"
        validate = 10
        keys = ("a", "b")
        metas = base.metas[:1]

        def depth(self, tier):
            return 3 if tier == "quick" else 4

        def open(self, ix, create=False):
            mod = W.copy(ix)["codex.implements"]
            if create:
                random.seed(10)
                one = getattr(mod, self.kind)(create=True)
                self.label = one.name
                other = getattr(mod, self.kind)(create=True)
                expect(other.name != one.name, "anonymous",
                       "two indexes made up the same name")
                other.close()
                return one
            return getattr(mod, self.kind)(self.label, create=False)
    return Anonymous()


def harnesses(tier):
    deep = tier != "quick"
    four = ("a", "b", "ab", "ba") if deep else ("a", "b", 3)
    return [
        closing(Index, "tag-index", keys=four + (("c",) if deep else ())),
        Unmerged(), Meta(), MetaUnmerged(),
        closing(Meta, "meta-index-closure", keys=four[:3],
                cap=40, metas=("m",)),
        closing(Meta, "meta-index-long", keys=("a", "b"),
                metas=("m", "n", "long")),
        variant(Index, "tag-index-handles", {}),
        variant(Index, "tag-index-nolock", {"no_lockout": True}),
        variant(Meta, "meta-index-nolock", {"no_lockout": True}, 3),
        Many(), Looks(), Twins(), Alike(), anonymous(Index), anonymous(Meta),
    ]
