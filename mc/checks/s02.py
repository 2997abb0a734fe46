"""S02: nested editing changes exactly the matching entries."""
import collections
import copy
import itertools

from .. import nested
from ..core import CaseHarness
from ..loader import load
from ..judge import ARRAY, OTHER_ARRAY, attempt, expect, show

LEVEL = "exploration"
RULE = ("dig_and_edit on every nested mapping with up to the stated number of "
        "entries x filters x setters (also setting mappings) x mapping types; "
        "and every history of NestingDict assignments, reads and deletions "
        "over paths of 1-3 keys up to the stated depth, then todict(); "
        "non-trivial: something is nested")
ASSUMPTIONS = ["setters do not set mappings that match again without end"]


def deep(v):
    return copy.deepcopy(v)


FILTERS = {
    "key": lambda k, v: k == "a",
    "value": lambda k, v: v == 1,
    "leaf": lambda k, v: not hasattr(v, "keys"),
    "map": lambda k, v: hasattr(v, "keys"),
    "item": lambda k, v: k == "b" and v == {"a": 1},
    "truthy": lambda k, v: v if not hasattr(v, "keys") else 0,
    "none": lambda k, v: None,
    "both": lambda k, v: k == "a" and not hasattr(v, "keys"),
}
# these ask nothing of the values
NO_VALUES = ["key", "leaf", "map", "none", "both"]
SETTERS = {
    "const": lambda k, v: 9,
    "none": lambda k, v: None,
    "pair": lambda k, v: (k, v),
    "inc": lambda k, v: v + 1 if isinstance(v, int) else v,
    # newly set mappings are searched too
    "leafmap": lambda k, v: {"c": 1, "d": 5} if not hasattr(v, "keys")
    and k in ("a", "b") else 7,
    "wrap": lambda k, v: {"b": 1, "x": {"b": 1}}
    if k == "a" and not hasattr(v, "keys") else 0,
    "same": lambda k, v: v,
}


def reference(tree, keep, setter, mtypes):
    """the same tree, edited; the original is not touched"""
    out = {}
    for k, v in tree.items():
        out[k] = setter(k, v) if keep(k, v) else v
    made = {k: reference(v, keep, setter, mtypes)
            if isinstance(v, mtypes) else v for k, v in out.items()}
    kind = type(tree)
    return made if kind is dict else kind(made)


class Edit(CaseHarness):
    name = "edit"
    SHAPES = ((("dict",), None), (("dict", "user", "dict"), None),
              (("ordered", "sub"), None),
              (("user", "dict"), (dict, collections.UserDict)),
              (("dict", "user"), (collections.UserDict,)))

    def cases(self, tier):
        more = tier == "thorough"
        for t in nested.trees("ab", (1, 2), 7 if more else 6, 3):
            yield t, 0
        for t in nested.trees("abc", (1,), 6 if more else 5, 3):
            yield t, 0
        for t in nested.trees("ab", (ARRAY, OTHER_ARRAY), 4, 3):
            yield t, 0
        for t in nested.trees("ab", nested.FANCY, 3, 3):
            yield t, 0
        for t in nested.trees(nested.ODD_KEYS, (1,), 4, 3):
            yield t, 0
        for t in nested.chains(1, (4, 5, 6, 9, 17, 30)):
            yield t, 0
        for t in nested.trees("ab", (1, 0), 4 if more else 4, 4):
            for i in range(len(self.SHAPES)):
                yield t, i

    def run(self, case):
        tree, ix = case
        shape, given = self.SHAPES[ix]
        mtypes = given or (dict,)
        struct = load("structures")
        out = []
        arrays = "array>" in repr(tree)
        for (f, keep), (s, setter) in itertools.product(
                FILTERS.items(), SETTERS.items()):
            if arrays and f not in NO_VALUES:
                continue
            made = nested.convert(tree, shape)
            want = nested.plain(reference(made, keep, setter, mtypes))
            inner = made.get("a")
            args = (mtypes,) if given else ()
            got = attempt(struct.dig_and_edit, made, keep, setter, *args)
            what = f"editing {tree} ({shape}) where {f} by {s}"
            expect(got[0] == "ok" and got[1] is made, "in-place",
                   f"{what}: {show(got)}, should be the mapping itself")
            expect(nested.plain(made) == want, "edited",
                   f"{what}: {nested.plain(made)}, should be {want}")
            if isinstance(inner, mtypes) and not keep("a", inner):
                expect(made["a"] is inner, "identity",
                       f"{what}: an unmatched mapping was replaced")
            out.append(repr(want))
        return out, any(hasattr(v, "keys") for v in tree.values())


PATHS = [("a",), ("b",), ("a", "b"), ("a", "c"), ("b", "a", "a"),
         ("a", "b", "c"), ("b", "a", "b")]


class Nesting(CaseHarness):
    """every history of nested assignments."""
    name = "nesting"

    def cases(self, tier):
        ops = [("set", p) for p in PATHS]
        ops += [("leafdict", ("a",)), ("leafdict", ("b", "a"))]
        ops += [("read", ("a", "b")), ("read", ("c", "a")),
                ("del", ("a",)), ("nest", ("b",)), ("repr", ())]
        for n in range(0, 5 if tier == "quick" else 6):
            yield from itertools.product(ops, repeat=n)

    def run(self, case):
        cls = load("structures").NestingDict
        real, model = cls(), {}
        for i, (op, path) in enumerate(case):
            if not self.possible(model, op, path):
                return "impossible", False
            self.apply(real, op, path, i, cls)
            self.apply_model(model, op, path, i)
            expect(self.shape(real) == self.shape(model), "contents",
                   f"after {case[:i + 1]} it is {real!r}, should be "
                   f"{model!r}")
        text = attempt(repr, real)
        expect(text == ("ok", repr(model)), "repr",
               f"repr is {show(text)}, should be {model!r}")
        for _, path in case:
            here, there = real, model
            for k in path:
                if not isinstance(there, dict) or k not in there:
                    break
                here, there = here[k], there[k]
            else:
                expect(self.shape(here) == self.shape(there), "read",
                       f"{path} is {here!r}, should be {there!r}")
        got = attempt(real.todict)
        expect(got[0] == "ok" and nested.plain(got[1]) == nested.plain(model),
               "todict", f"todict() after {case} is {show(got)}: "
                         f"{got[0] == 'ok' and nested.plain(got[1])}, should "
                         f"be plain {model!r}")
        return nested.plain(model), len(case) > 1

    @staticmethod
    def possible(model, op, path):
        here = model
        for k in path[:-1]:
            here = here.get(k, {})
            if not isinstance(here, dict) or "leaf" in here:
                return False
        if op == "del":
            return path[-1] in here
        return True

    @staticmethod
    def apply(real, op, path, i, cls):
        here = real
        for k in path[:-1]:
            here = here[k]
        if op == "set":
            here[path[-1]] = i
        elif op == "leafdict":
            here[path[-1]] = {"leaf": {"x": i}}
        elif op == "nest":
            sub = (cls if i % 2 else type("Sub", (cls,), {}))()
            sub["n"]["m"] = i
            here[path[-1]] = {"leaf": sub}
        elif op == "read":
            here[path[-1]]
        elif op == "del":
            del here[path[-1]]
        else:
            repr(real)

    @staticmethod
    def apply_model(model, op, path, i):
        here = model
        for k in path[:-1]:
            here = here.setdefault(k, {})
        if op == "set":
            here[path[-1]] = i
        elif op == "leafdict":
            here[path[-1]] = {"leaf": {"x": i}}
        elif op == "nest":
            here[path[-1]] = {"leaf": {"n": {"m": i}}}
        elif op == "read":
            here.setdefault(path[-1], {})
        elif op == "del":
            del here[path[-1]]

    @classmethod
    def shape(cls, tree):
        if isinstance(tree, dict):
            return [(k, cls.shape(v)) for k, v in tree.items()]
        return tree


def harnesses(tier):
    return [Edit(), Nesting()]
