"""S04: rmerge is a recursive right-biased union."""
import collections
import itertools

from .. import nested
from ..core import CaseHarness
from ..loader import load
from ..judge import ARRAY, OTHER_ARRAY, attempt, expect, show

LEVEL = "exploration"
RULE = ("every ordered pair of nested mappings with up to the stated numbers "
        "of entries on up to 3-4 levels, of several mapping types and with "
        "several mtypes; non-trivial: both have a key in common")
ASSUMPTIONS = []

MTYPES = {
    "default": ({}, (dict, collections.OrderedDict)),
    "dict": ({"mtypes": (dict,)}, (dict,)),
    "ordered": ({"mtypes": (collections.OrderedDict,)},
                (collections.OrderedDict,)),
    "abc": ({"mtypes": (collections.abc.Mapping,)},
            (collections.abc.Mapping,)),
    "user": ({"mtypes": collections.UserDict}, collections.UserDict),
}


def reference(a, b, mtypes):
    """list of (key, value), with merged values as such lists"""
    out = []
    for k in list(a) + [k for k in b if k not in a]:
        if k in a and k in b:
            if isinstance(a[k], mtypes) and isinstance(b[k], mtypes):
                out.append((k, reference(a[k], b[k], mtypes)))
            else:
                out.append((k, ("is", b[k])))
        else:
            out.append((k, ("is", a[k] if k in a else b[k])))
    return out


def agrees(got, want):
    if not isinstance(got, collections.abc.Mapping):
        return False
    if list(got) != [k for k, _ in want]:
        return False
    for k, w in want:
        if isinstance(w, list):
            if not agrees(got[k], w):
                return False
        elif not (got[k] is w[1] or (
                nested.plain(got[k]) == nested.plain(w[1])
                and type(got[k]) is type(w[1]))):
            return False
    return True


class Merge(CaseHarness):
    name = "merge"
    SHAPES = ((("dict",), ("dict",)), (("dict", "ordered", "sub"),) * 2,
              (("dict", "user"), ("dict", "dict")),
              (("user", "user", "dict"), ("ordered", "user")),
              (("proxy", "dict"), ("proxy",)),
              (("dict", "shared"), ("dict", "shared")))

    def cases(self, tier):
        more = tier == "thorough"
        left = list(nested.trees("ab", (1, None), 4 if more else 4, 3))
        right = list(nested.trees("ab", (2,), 4 if more else 4, 3))
        for a, b in itertools.product(left, right):
            yield a, b, 0, "default"
        few = list(nested.trees("ab", (1,), 4, 4))
        for a, b in itertools.product(few, few):
            yield a, b, 0, "dict"
        three = list(nested.trees("abc", (0,), 4 if more else 3, 3))
        for a, b in itertools.product(three, three):
            yield a, b, 0, "default"
        fancy = list(nested.trees("ab", nested.FANCY + (None,), 2, 2))
        for a, b in itertools.product(fancy, fancy):
            yield a, b, 0, "default"
        left = list(nested.trees("ab", (ARRAY,), 3, 3))
        right = list(nested.trees("ab", (OTHER_ARRAY,), 3, 3))
        for a, b in itertools.product(left, right):
            yield a, b, 0, "default"
        odd = list(nested.trees(nested.ODD_KEYS, (1,), 3, 2))
        for a, b in itertools.product(odd, odd):
            yield a, b, 0, "default"
        deep = list(nested.chains(1, (1, 4, 5, 6, 9, 17, 30)))
        for a, b in itertools.product(deep, deep):
            yield a, b, 0, "default"
        small = list(nested.trees("ab", (1,), 3, 3))
        for a, b in itertools.product(small, small):
            for i in range(len(self.SHAPES)):
                for m in MTYPES:
                    yield a, b, i, m

    def run(self, case):
        one, two, ix, m = case
        a = nested.convert(one, self.SHAPES[ix][0])
        b = nested.convert(two, self.SHAPES[ix][1])
        kwargs, mtypes = MTYPES[m]
        before = nested.plain(a), nested.plain(b)
        want = reference(a, b, mtypes)
        got = attempt(load("structures").rmerge, a, b, **kwargs)
        expect(got[0] == "ok" and agrees(got[1], want), "merge",
               f"rmerge({a!r}, {b!r}, {m}): {show(got)}, should be {want}")
        expect((nested.plain(a), nested.plain(b)) == before, "changed",
               f"rmerge changed {before} to {a!r}, {b!r}")
        # nor by editing the result at any merged level
        self.scribble(got[1], want)
        expect((nested.plain(a), nested.plain(b)) == before, "aliased",
               f"editing the result of rmerge changed {before}")
        return nested.plain(a), bool(set(one) & set(two))

    def scribble(self, got, want):
        for k, w in want:
            if isinstance(w, list):
                self.scribble(got[k], w)
        got["scribble"] = 1


def harnesses(tier):
    return [Merge()]
