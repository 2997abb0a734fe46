"""every nested mapping up to a number of entries and levels."""
import collections
import collections.abc
import copy
import functools
import itertools
import types


@functools.lru_cache(maxsize=None)
def _trees(keys, leaves, entries, depth):
    """tuples of (key, value) pairs with exactly `entries` entries in all"""
    out = []
    if entries == 0:
        return [()]
    if depth == 0:
        return []
    for width in range(1, min(len(keys), entries) + 1):
        for chosen in itertools.permutations(keys, width):
            # how many entries lie below each of them
            for below in compositions(entries - width, width):
                choices = []
                for n in below:
                    sub = [("t", t) for t in
                           _trees(keys, leaves, n, depth - 1)] \
                        if depth > 1 else []
                    if n == 0:
                        sub = [("l", x) for x in leaves] + sub
                    choices.append(sub)
                for values in itertools.product(*choices):
                    out.append(tuple(zip(chosen, values)))
    return out


@functools.lru_cache(maxsize=None)
def compositions(total, parts):
    if parts == 1:
        return [(total,)]
    return [(n,) + rest for n in range(total + 1)
            for rest in compositions(total - n, parts - 1)]


def build(tree, keys, leaves):
    return {keys[k]: (build(v, keys, leaves) if tag == "t"
                      else copy.deepcopy(leaves[v]))
            for k, (tag, v) in tree}


def trees(keys, leaves, entries, depth):
    """all nested dicts with up to `entries` entries on up to `depth` levels"""
    keys, leaves = tuple(keys), tuple(leaves)
    for n in range(entries + 1):
        for t in _trees(range(len(keys)), range(len(leaves)), n, depth):
            yield build(t, keys, leaves)


def count(keys, leaves, entries, depth):
    return sum(len(_trees(range(len(keys)), range(len(leaves)), n, depth))
               for n in range(entries + 1))


class Sub(dict):
    """a dict subclass"""


KINDS = {
    "dict": dict,
    "ordered": collections.OrderedDict,
    "sub": Sub,
    "user": collections.UserDict,
    "proxy": types.MappingProxyType,
}


def convert(tree, kinds, level=0, memo=None):
    """
    the same tree with other mapping types at each level; with "shared", equal
    subtrees are one and the same object
    """
    if "shared" in kinds:
        kinds = tuple(k for k in kinds if k != "shared")
        memo = {}
    name = kinds[min(level, len(kinds) - 1)]
    same = (name, repr(tree)) if memo is not None else None
    if same is not None and same in memo:
        return memo[same]
    kind = KINDS[name]
    made = {k: convert(v, kinds, level + 1, memo)
            if isinstance(v, dict) else v for k, v in tree.items()}
    made = made if kind is dict else kind(made)
    if same is not None:
        memo[same] = made
    return made


def chains(leaf, depths, keys="ab"):
    """deep and narrow trees, with an entry beside, before or after the path"""
    one, two = keys
    for n in depths:
        for beside in ("none", "before", "after", "bottom"):
            tree = {one: leaf}
            for i in range(n):
                if beside == "before":
                    tree = {two: leaf, one: tree}
                elif beside == "after":
                    tree = {one: tree, two: leaf}
                elif beside == "bottom" and i == 0:
                    tree = {two: {two: leaf}, one: tree}
                else:
                    tree = {one: tree}
            yield tree


# leaves that are false, or look like something to enter
FANCY = (0, "", False, (), [], [{"a": 1}], ({"b": 2},), 1.5, b"a", "ab")
ODD_KEYS = (None, 0, ("a", 1))


def plain(tree):
    """nested dicts of any mapping, with the types' names"""
    if isinstance(tree, collections.abc.Mapping):
        return (type(tree).__name__,
                [(k, plain(v)) for k, v in tree.items()])
    return tree


def walk(tree, mtypes, level=0):
    """(level, mapping, key, value) of every entry, breadth unordered"""
    for k, v in tree.items():
        yield level, tree, k, v
        if isinstance(v, mtypes):
            yield from walk(v, mtypes, level + 1)
