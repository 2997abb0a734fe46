"""S03: flattening nested mappings keeps every value under its path."""
import collections
import itertools

from .. import nested
from ..core import CaseHarness
from ..loader import load
from ..judge import ARRAY, OTHER_ARRAY, attempt, expect, same, show

LEVEL = "exploration"
RULE = ("to_records and unnest on every nested mapping with up to the stated "
        "number of entries and levels, with every level naming and several "
        "key alphabets (numbers, empty strings, keys with underscores) and "
        "mapping types; non-trivial: more than one level")
ASSUMPTIONS = [
    "to_records: the values of the outer mapping are mappings; entries are "
    "not named like levels",
    "unnest: only leaves with distinct joined paths are claimed to be kept",
]


def mixed(m):
    return any(not isinstance(v, collections.abc.Mapping)
               for v in m.values())


def records(tree, path=()):
    for k, v in tree.items():
        if mixed(v):
            yield path + (k,), v
        else:
            yield from records(v, path + (k,))


class Records(CaseHarness):
    name = "records"
    LEVELS = (None, ("one", "two", "three", "four", "five"),
              ["L", 0, None, "M", "N"])

    def cases(self, tier):
        n = 6 if tier == "quick" else 7
        for t in nested.trees("ab", (1, None), n, 4):
            if all(isinstance(v, dict) for v in t.values()):
                yield t, ("dict",)
        for t in nested.trees(("a", "b", ""), (0,), n - 1, 4):
            if all(isinstance(v, dict) for v in t.values()):
                yield t, ("dict",)
                yield t, ("ordered", "proxy", "user")
                yield t, ("dict", "shared")
        for t in nested.trees("ab", (ARRAY, OTHER_ARRAY), 4, 3):
            if all(isinstance(v, dict) for v in t.values()):
                yield t, ("dict",)
        for t in nested.trees("ab", nested.FANCY, n - 2, 3):
            if all(isinstance(v, dict) for v in t.values()):
                yield t, ("dict",)
        for t in nested.chains(1, (1, 2, 3, 4)):
            if all(isinstance(v, dict) for v in t.values()):
                yield t, ("dict",)
        for t in nested.trees(((1, 2), None, 7), ("x",), n - 2, 4):
            if all(isinstance(v, dict) for v in t.values()):
                yield t, ("dict",)

    def run(self, case):
        tree, shape = case
        struct = load("structures")
        found = list(records(tree))
        deepest = 0
        for names in self.LEVELS:
            made = nested.convert(tree, shape)
            before = nested.plain(made)
            used = names if names is not None else itertools.count(1)
            want = []
            for path, entries in found:
                here = list(itertools.islice(iter(
                    names if names is not None else range(1, 99)),
                    len(path)))
                deepest = max(deepest, len(path))
                want.append(dict(entries) | dict(zip(here, path)))
            del used
            args = {} if names is None else {"level_names": names}
            got = attempt(struct.to_records, made, **args)
            expect(got[0] == "ok" and isinstance(got[1], list)
                   and len(got[1]) == len(want) and all(
                       set(map(repr, g)) == set(map(repr, w)) and all(
                           self.eq(g[k], w[k]) for k in w)
                       for g, w in zip(got[1], want)), "records",
                   f"to_records({made!r}, level_names={names}): {show(got)}, "
                   f"should be {want}")
            again = attempt(struct.to_records, made, **args)
            expect(repr(again) == repr(got), "again",
                   f"to_records({made!r}) twice: {show(got)}, {show(again)}")
            expect(nested.plain(made) == before, "changed",
                   f"to_records changed {before}")
        return [repr(w) for w in want], deepest > 1

    @classmethod
    def eq(cls, one, two):
        if isinstance(two, collections.abc.Mapping):
            return isinstance(one, collections.abc.Mapping) and list(
                map(repr, one)) == list(map(repr, two)) and all(
                    cls.eq(one[k], two[k]) for k in two)
        return same(one, two)


def leaves(tree, mtypes, path=()):
    for k, v in tree.items():
        if isinstance(v, mtypes):
            yield from leaves(v, mtypes, path + (k,))
        else:
            yield path + (k,), v


class Unnest(CaseHarness):
    name = "unnest"
    SHAPES = ((("dict",), None), (("dict", "user", "dict"), None),
              (("ordered", "sub"), None),
              (("user", "dict"), (dict, collections.UserDict)),
              (("proxy", "dict"), (collections.abc.Mapping,)),
              (("dict", "shared"), None))

    def cases(self, tier):
        n = 6 if tier == "quick" else 7
        for t in nested.trees("ab", (1, None), n, 4):
            yield t, 0
        for t in nested.trees(("a", "", "a_", "_a"), (0,), n - 2, 4):
            yield t, 0
        for t in nested.trees("ab", (ARRAY, OTHER_ARRAY), 4, 3):
            yield t, 0
        for t in nested.trees("ab", nested.FANCY, n - 3, 3):
            yield t, 0
        for t in nested.chains(1, (4, 5, 6, 9, 17, 30)):
            yield t, 0
        for t in nested.trees((1, "1", None, ("t", 2)), ("x",), n - 2, 4):
            yield t, 0
        for t in nested.trees("ab", (1, ()), n - 2, 4):
            for i in range(1, len(self.SHAPES)):
                yield t, i

    def run(self, case):
        tree, ix = case
        shape, given = self.SHAPES[ix]
        mtypes = given or (dict,)
        made = nested.convert(tree, shape)
        struct = load("structures")
        before = nested.plain(made)
        if not isinstance(made, mtypes):
            return "outside", False
        found = list(leaves(made, mtypes))
        for escape in (None, "", "'"):
            esc = escape or ""
            kept = collections.defaultdict(list)
            for path, v in found:
                joined = "_".join(
                    [f"{esc}{p}{esc}" for p in path[:-1]] + [f"{path[-1]}"])
                kept[joined].append(v)
            kwargs = {} if given is None else {"mtypes": given}
            if escape is not None:
                kwargs["escape"] = escape
            got = attempt(struct.unnest, made, **kwargs)
            expect(got[0] == "ok" and isinstance(got[1], dict)
                   and set(got[1]) == set(kept) and all(
                       any(v is x for x in kept[k])
                       for k, v in got[1].items()), "unnest",
                   f"unnest({made!r}, {kwargs}): {show(got)}, should be "
                   f"{dict(kept)}")
        expect(nested.plain(made) == before, "changed",
               f"unnest changed {before}")
        return sorted(kept), any(len(p) > 1 for p, _ in found)


def harnesses(tier):
    return [Records(), Unnest()]
