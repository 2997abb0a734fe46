"""S05: mapping and sequence helpers return exactly what they promise."""
import ast
import collections
import itertools
import types

import numpy

from .. import nested
from ..core import CaseHarness
from ..loader import load
from ..judge import ARRAY, attempt, expect, same, show

LEVEL = "exploration"
RULE = ("every helper on every small collection, mapping, key and key path of "
        "finite menus; non-trivial: the collection is not empty")
ASSUMPTIONS = [
    "insert_after is given a new key that is not in the mapping",
]

Point = collections.namedtuple("Point", ["x", "y"])


class Obj:
    """attributes only"""

    def __init__(self, **kw):
        self.__dict__.update(kw)

    def __repr__(self):
        return f"Obj({self.__dict__})"


class Both(dict):
    """items and attributes"""
    attr = "class attribute"


MISSING = object()


def one_step(level, key):
    """follow one key, index or attribute"""
    if hasattr(level, "__getitem__") and not isinstance(level, type):
        try:
            return level[key]
        except (KeyError, IndexError, TypeError):
            pass
    if isinstance(key, str):
        return getattr(level, key, MISSING)
    return MISSING


def structures():
    leaves = [0, "s", None, ARRAY]
    simple = [{}, {"x": 0}, {"a": None, 1: "s"}, [], [0, "s"], ("t",),
              Point(1, None), Obj(a=5, b=None), Both(a=1), "text"]
    yield from simple
    for inner in simple + leaves:
        yield {"a": inner, 0: "zero", "x": 1}
        yield [inner, 7]
        yield Point(inner, "p")
        yield Obj(a=inner, x=0)
        yield Both(a=inner, attr="item")
        for wrap in (lambda v: {"a": v}, lambda v: [v], lambda v: Obj(a=v),
                     lambda v: Point(v, 2)):
            yield {"a": wrap(inner)}
            yield [wrap(inner)]
            yield Obj(a=wrap(inner))
            yield types.MappingProxyType({"a": wrap(inner)})


PATH_KEYS = ["a", "x", 0, 1, "attr", -1, None]


class Lookup(CaseHarness):
    """get_from and getitemattr"""
    name = "lookup"

    def cases(self, tier):
        n = sum(1 for _ in structures())
        longest = 3 if tier == "quick" else 4
        for i in range(n):
            for length in range(longest + 1):
                for path in itertools.product(PATH_KEYS, repeat=length):
                    yield i, path

    def prepare(self):
        self.all = list(structures())

    def run(self, case):
        i, path = case
        thing = self.all[i]
        struct = load("structures")
        level = thing
        for key in path:
            level = one_step(level, key)
            if level is MISSING:
                break
        found = level is not MISSING
        for default in (None, "default", 0):
            kwargs = {} if default is None else {"default": default}
            got = attempt(struct.get_from, thing, path, **kwargs)
            want = level if found else default
            expect(got[0] == "ok" and (got[1] is want or same(got[1], want)),
                   "get_from", f"get_from({thing!r}, {path}, {kwargs}): "
                               f"{show(got)}, should be {want!r}")
        for label, keys in (("list", list(path)), ("iterator", iter(path)),
                            ("generator", (key for key in path)),
                            ("dict", dict.fromkeys(path))):
            if len(keys if label == "dict" else path) != len(path):
                continue  # a key twice
            got = attempt(struct.get_from, thing, keys, "default")
            want = level if found else "default"
            expect(got[0] == "ok" and (got[1] is want or same(got[1], want)),
                   "get_from", f"get_from({thing!r}, {label} of {path}): "
                               f"{show(got)}, should be {want!r}")
        if len(path) == 1:
            got = attempt(struct.getitemattr, thing, path[0])
            if found:
                expect(got[0] == "ok" and (
                    got[1] is level or same(got[1], level)), "getitemattr",
                    f"getitemattr({thing!r}, {path[0]!r}): {show(got)}, "
                    f"should be {level!r}")
            else:
                expect(got[0] != "ok", "getitemattr",
                       f"getitemattr({thing!r}, {path[0]!r}): {show(got)}, "
                       "should fail")
        return repr(level) if found else None, bool(path)


VALUES = [0, 1, None, "a", (1,), ARRAY]


def small_mappings(keys, values, size):
    for n in range(size + 1):
        for ks in itertools.permutations(keys, n):
            for vs in itertools.product(values, repeat=n):
                yield dict(zip(ks, vs))


class Mappings(CaseHarness):
    """helpers of mappings"""
    name = "mappings"
    KINDS = ("dict", "ordered", "proxy", "user")

    def cases(self, tier):
        n = 3 if tier == "quick" else 4
        for m in small_mappings(("a", 1, None, ""), (0, None, "v"), n):
            for kind in self.KINDS:
                yield m, kind
        for m in small_mappings(("a", 1), (ARRAY, 0), n):
            for kind in self.KINDS:
                yield m, kind
        for m in small_mappings(("long key", (1, "b"), 100000, 2.5, b"by"),
                                (0, [1]), n):
            yield m, "dict"

    def run(self, case):
        m, kind = case
        struct = load("structures")
        made = nested.KINDS[kind](m)
        before = list(m.items())
        got = attempt(struct.reindex_mapping, made)
        want = dict(enumerate(m.values()))
        expect(got[0] == "ok" and type(got[1]) is dict
               and list(got[1].items()) == list(want.items()), "reindex",
               f"reindex_mapping({made!r}): {show(got)}, should be {want}")
        got = attempt(struct.enumerate_as_mapping, made)
        expect(got[0] == "ok" and list(got[1].items()) == before, "enumerate",
               f"enumerate_as_mapping({made!r}): {show(got)}")
        # keys that are equal to those there, but not the same objects
        for prior in [ast.literal_eval(repr(k)) for k in m] + [
                "zz", *(True for k in m if k == 1), *(
                    1.0 for k in m if k == 1)]:
            for value in (0, None, "new"):
                got = attempt(struct.insert_after, "n", value, prior, made)
                want = []
                for k, v in before:
                    want.append((k, v))
                    if k == prior:
                        want.append(("n", value))
                expect(got[0] == "ok" and same(list(got[1].items()), want),
                       "insert_after",
                       f"insert_after('n', {value!r}, {prior!r}, {made!r}): "
                       f"{show(got)}, should be {want}")
        for key in ("a", 1, None, "zz", ast.literal_eval("(1, 'b')")):
            for default in (None, 0):
                for group in ([made], [made, {}], [{}, made, {"a": 9}],
                              (made, made), {"x": made, "y": {"a": 3}}, []):
                    kwargs = {} if default is None else {"default": default}
                    got = attempt(struct.get_from_all, key, group, **kwargs)
                    items = list(group.values()) if isinstance(
                        group, dict) else group
                    want = [g.get(key, default) for g in items]
                    expect(got[0] == "ok" and same(got[1], want),
                           "get_from_all",
                           f"get_from_all({key!r}, {group!r}, {kwargs}): "
                           f"{show(got)}, should be {want}")
        expect(list(made.items()) == before, "changed",
               f"a helper changed {before} to {made!r}")
        return before, bool(m)


TRUTHS = {"is1": lambda x: x is not ARRAY and x == 1, "none": lambda x: x is None,
          "all": lambda x: True, "nothing": lambda x: False}


def object_array(items):
    """a numpy array: neither true nor false unless it has one item"""
    out = numpy.empty(len(items), dtype=object)
    out[:] = items
    return out


class Sequences(CaseHarness):
    """helpers of sequences"""
    name = "sequences"

    def cases(self, tier):
        n = 4 if tier == "quick" else 6
        for size in range(n + 1):
            for items in itertools.product(range(len(VALUES)), repeat=size):
                yield items

    def run(self, case):
        struct = load("structures")
        items = [VALUES[i] for i in case]
        for kind in (list, tuple, collections.deque, object_array):
            made = kind(items)
            got = attempt(struct.enumerate_as_mapping, made)
            want = dict(enumerate(items))
            expect(got[0] == "ok" and same(dict(got[1]), want), "enumerate",
                   f"enumerate_as_mapping({made!r}): {show(got)}")
            got = attempt(struct.listify, made)
            expect(got[0] == "ok" and same(got[1], items), "listify",
                   f"listify({made!r}): {show(got)}")
            for name, pred in TRUTHS.items():
                got = attempt(struct.separate_by, made, pred)
                want = ([x for x in items if pred(x)],
                        [x for x in items if not pred(x)])
                expect(got[0] == "ok" and same(list(map(list, got[1])),
                                               list(want)), "separate_by",
                       f"separate_by({made!r}, {name}): {show(got)}, should "
                       f"be {want}")
            expect(same(list(made), items), "changed",
                   f"a helper changed {items} to {made!r}")
        # one pass is enough, and truth is never asked for
        for kind in (iter, lambda i: (x for x in i)):
            got = attempt(lambda: dict(struct.enumerate_as_mapping(
                kind(items))))
            expect(got[0] == "ok" and same(got[1], dict(enumerate(items))),
                   "enumerate", f"enumerate_as_mapping of an iterator over "
                   f"{items!r}: {show(got)}")
        got = attempt(struct.separate_by, iter(items), TRUTHS["is1"])
        expect(got[0] == "ok" and [list(x) for x in got[1]] == [
            [x for x in items if TRUTHS["is1"](x)],
            [x for x in items if not TRUTHS["is1"](x)]],
            "separate_by", f"separate_by of an iterator: {show(got)}")
        return items, bool(items)


class Listify(CaseHarness):
    name = "listify"
    THINGS = [0, None, "", "abc", ARRAY, {"a": ARRAY}, (ARRAY,), b"abc", 1.5, True, {}, {"a": 1}, set(), {3}, (),
              (None,), range(3), frozenset([2]), object, len, [[1], [2]],
              [""], {"k": [1]}.values(), {"k": 1}.keys(), iter]

    def cases(self, tier):
        yield from range(len(self.THINGS))

    def run(self, case):
        thing = self.THINGS[case]
        struct = load("structures")
        got = attempt(struct.listify, thing)
        many = isinstance(thing, collections.abc.Collection) \
            and not isinstance(thing, str)
        want = list(thing) if many else [thing]
        expect(got[0] == "ok" and type(got[1]) is list
               and len(got[1]) == len(want)
               and all(a is b for a, b in zip(got[1], want)), "listify",
               f"listify({thing!r}): {show(got)}, should be {want!r}")
        empty = attempt(struct.enumerate_as_mapping, None)
        expect(empty == ("ok", {}), "enumerate",
               f"enumerate_as_mapping(None): {show(empty)}")
        bad = attempt(struct.reindex_mapping, [1])
        expect(bad[0] != "ok", "reindex", "reindex_mapping took a list")
        return repr(got[1]), True


def harnesses(tier):
    return [Lookup(), Mappings(), Sequences(), Listify()]
