"""S01: digging finds exactly the matching items, shallowest first."""
import collections
import functools
import operator
import types

from .. import nested
from ..core import CaseHarness
from ..loader import load
from ..judge import ARRAY, OTHER_ARRAY, attempt, expect, show

LEVEL = "exploration"
RULE = ("every nested mapping with up to the stated number of entries on up "
        "to 3 levels, over 2-3 keys and values, of several mapping types, x "
        "every dig function, match mode, reference, predicate and mtypes of a "
        "menu; non-trivial: something is nested")
ASSUMPTIONS = [
    "references are not callable (callables are predicates)",
    "predicates are callables of key and value",
]


def divides(ref, thing):
    return isinstance(thing, int) and thing % ref == 0


def item3(ref, key, value):
    return key == ref[0] or value == ref[1]


class Either:
    """a predicate that is not a function"""
    def __init__(self, key, value):
        self.key, self.value = key, value

    def judge(self, key, value):
        return key == self.key or value == self.value

    __call__ = judge


# name -> (ref, kwargs, reference predicate)
QUERIES = {
    "key": ("a", {}, lambda k, v: k == "a"),
    "key-explicit": ("b", {"match": "key"}, lambda k, v: k == "b"),
    "key-absent": ("zz", {}, lambda k, v: k == "zz"),
    "value": (1, {"match": "value"}, lambda k, v: v == 1),
    "value-none": (None, {"match": "value"}, lambda k, v: v is None),
    "value-dict": ({"a": 1}, {"match": "value"}, lambda k, v: v == {"a": 1}),
    "value-empty": ({}, {"match": "value"}, lambda k, v: v == {}),
    "value-list": ([{"a": 1}], {"match": "value"},
                   lambda k, v: v == [{"a": 1}]),
    "value-zero": (0, {"match": "value"}, lambda k, v: v == 0),
    "value-text": ("", {"match": "value"}, lambda k, v: v == ""),
    "key-none": (None, {}, lambda k, v: k is None),
    "key-zero": (0, {}, lambda k, v: k == 0),
    "key-tuple": (("a", 1), {}, lambda k, v: k == ("a", 1)),
    "item-odd": ((None, 0), {"match": "item"},
                 lambda k, v: k is None and v == 0),
    "item": (("b", 1), {"match": "item"}, lambda k, v: (k, v) == ("b", 1)),
    "predicate": (lambda k, v: k == "b" and v in (1, None), {},
                  lambda k, v: k == "b" and v in (1, None)),
    "predicate-value": (lambda k, v: v, {"match": "value"},
                        lambda k, v: bool(v)),
    "predicate-all": (lambda *_: True, {"match": "item"}, lambda *_: True),
    "predicate-none": (lambda *_: 0, {}, lambda *_: False),
    "predicate-partial": (functools.partial(item3, ("b", 1)), {},
                          lambda k, v: k == "b" or v == 1),
    "predicate-builtin": (operator.ne, {}, lambda k, v: k != v),
    "predicate-object": (Either("b", 1), {"match": "value"},
                         lambda k, v: k == "b" or v == 1),
    "predicate-method": (Either("b", 1).judge, {},
                         lambda k, v: k == "b" or v == 1),
    "base-ne": ("a", {"base_pred": operator.ne}, lambda k, v: k != "a"),
    "base-in": ("abc", {"base_pred": operator.contains},
                lambda k, v: k in "abc"),
    "base-lt": ("a", {"base_pred": operator.lt}, lambda k, v: "a" < k),
    "base-value": (2, {"match": "value", "base_pred": divides},
                   lambda k, v: divides(2, v)),
    "base-item": (("b", 1), {"match": "item", "base_pred": item3},
                  lambda k, v: k == "b" or v == 1),
}
# these ask nothing of the values
BY_KEY = [name for name in QUERIES if name.startswith("key")] + [
    "predicate-all", "predicate-none", "base-ne"]


MTYPES = {
    "default": ({}, (dict,)),
    "dict": ({"mtypes": (dict,)}, (dict,)),
    "one": ({"mtypes": dict}, (dict,)),
    "abc": ({"mtypes": (collections.abc.Mapping,)},
            (collections.abc.Mapping,)),
    "two": ({"mtypes": (collections.UserDict, types.MappingProxyType)},
            (collections.UserDict, types.MappingProxyType)),
    "none": ({"mtypes": ()}, ()),
}
PARTS = {"item": None, "key": 0, "value": 1}


def levels(tree, mtypes):
    level = [tree]
    while level:
        yield [(k, v) for t in level for k, v in t.items()]
        level = [v for t in level for v in t.values()
                 if isinstance(v, mtypes)]


def same_items(one, two):
    """equal as bags of identical objects"""
    if len(one) != len(two):
        return False
    left = list(two)
    for item in one:
        for i, other in enumerate(left):
            if item is other or (
                    isinstance(item, tuple) and isinstance(other, tuple)
                    and len(item) == len(other) == 2
                    and item[0] is other[0] and item[1] is other[1]):
                del left[i]
                break
        else:
            return False
    return True


class Dig(CaseHarness):
    name = "dig"
    SHAPES = (("dict",), ("dict", "user", "dict"), ("ordered", "sub"),
              ("proxy", "dict", "user"), ("user",), ("dict", "shared"),
              ("dict", "user", "shared"))

    def cases(self, tier):
        more = tier == "thorough"
        # all queries on small trees, all plain trees with all queries
        for t in nested.trees("ab", (1, None), 7 if more else 6, 3):
            yield t, ("dict",), "default"
        for t in nested.trees("ab", (2, 1), 6 if more else 5, 4):
            yield t, ("dict",), "default"
        for t in nested.trees("abc", (1,), 6 if more else 5, 3):
            yield t, ("dict",), "one"
        for t in nested.trees("ab", (1,), 7 if more else 6, 3):
            yield t, ("dict", "shared"), "default"
        for t in nested.trees("ab", (ARRAY, OTHER_ARRAY), 4, 3):
            yield t, ("dict",), "default"
        for t in nested.trees("ab", nested.FANCY, 3, 3):
            yield t, ("dict",), "default"
            yield t, ("dict",), "abc"
        for t in nested.trees(nested.ODD_KEYS, (0, None), 4, 3):
            yield t, ("dict",), "default"
        for t in nested.chains(1, (4, 5, 6, 9, 17, 30)):
            yield t, ("dict",), "default"
            yield t, ("dict", "sub"), "abc"
        for t in nested.trees("ab", (1, 2), 4 if more else 3, 3):
            for shape in self.SHAPES:
                for m in MTYPES:
                    yield t, shape, m

    def run(self, case):
        tree, shape, m = case
        struct = load("structures")
        made = nested.convert(tree, shape)
        kwargs, mtypes = MTYPES[m]
        # the mapping dug in is itself taken for what it is
        flat = list(levels(made, mtypes))
        before = nested.plain(made)
        out = []
        arrays = "array>" in repr(made)
        for name, (ref, more, pred) in QUERIES.items():
            if arrays and name not in BY_KEY:
                continue
            if name in ("base-lt", "base-in") and any(
                    not isinstance(k, str) for lv in flat for k, _ in lv):
                continue
            hits = [[kv for kv in lv if pred(*kv)] for lv in flat]
            everything = [kv for lv in hits for kv in lv]
            first = next((lv[0] for lv in hits if lv), None)
            for part, ix in PARTS.items():
                what = f"{part} of {made!r} for {name} {more} {m}"
                fn = getattr(struct, f"dig_for_{part}s")
                got = attempt(fn, made, ref, **more, **kwargs)
                want = None
                if everything:
                    want = [kv if ix is None else kv[ix]
                            for kv in everything]
                expect(got[0] == "ok" and (
                    got[1] is None if want is None else
                    isinstance(got[1], list) and same_items(got[1], want)),
                    f"all-{part}", f"all {what}: {show(got)}, should be "
                                   f"{want}")
                fn = getattr(struct, f"dig_for_{part}")
                got = attempt(fn, made, ref, **more, **kwargs)
                want = first if first is None or ix is None else first[ix]
                expect(got[0] == "ok" and (
                    got[1] is want if not isinstance(want, tuple) or
                    ix is not None else got[1] == want), f"one-{part}",
                    f"first {what}: {show(got)}, should be {want}")
            out.append(repr((everything, first)))
        expect(nested.plain(made) == before, "changed",
               f"digging changed {before} to {nested.plain(made)}")
        return out, len(flat) > 1


def harnesses(tier):
    return [Dig()]
