"""shared pieces of the checks of Notepad, GridPaper and the indexes."""
import functools
import re
import types
from multiprocessing.shared_memory import SharedMemory

from . import simshm
from . import world as W
from .judge import (  # noqa: F401
    MORE_TWINS, TWINS, expect, is_a, same, same_array, show)

COUNT = re.compile(r"_count$")


def blocks():
    """what is in shared memory, except how often locks were taken."""
    return {k: v for k, v in simshm.FS.snapshot().items()
            if not COUNT.search(k)}


def dump(obj, seen=None, depth=0):
    """structural image of an object graph, for state identity."""
    seen = {} if seen is None else seen
    if obj is None or isinstance(obj, (int, float, str, bytes, bool, complex)):
        return (type(obj).__name__, obj)
    if id(obj) in seen:
        return ("ref", seen[id(obj)])
    seen[id(obj)] = len(seen)
    if depth > 12:
        return type(obj).__name__
    if isinstance(obj, SharedMemory):
        node = getattr(getattr(obj, "_mmap", None), "node", None)
        live = node is not None and simshm.FS.names.get(node.name) is node
        return ("shm", obj._name, node is not None, live,
                None if node is None or live else bytes(node.data))
    if isinstance(obj, dict):
        return ("dict", tuple(
            (dump(k, seen, depth + 1), dump(v, seen, depth + 1))
            for k, v in obj.items()))
    if isinstance(obj, (list, tuple)):
        return (type(obj).__name__,
                tuple(dump(x, seen, depth + 1) for x in obj))
    if isinstance(obj, (set, frozenset)):
        return ("set", tuple(sorted(repr(dump(x, seen, depth + 1))
                                    for x in obj)))
    if isinstance(obj, functools.partial):
        return ("partial", dump(obj.args, seen, depth + 1),
                dump(obj.keywords, seen, depth + 1))
    if isinstance(obj, (types.FunctionType, types.MethodType, type,
                        types.BuiltinFunctionType)):
        return getattr(obj, "__qualname__", "f")
    if type(obj).__module__ == "numpy":
        return ("np", repr(obj), str(getattr(obj, "dtype", "")))
    if hasattr(obj, "__dict__"):
        return (type(obj).__name__, dump(dict(vars(obj)), seen, depth + 1))
    return type(obj).__name__


def copies_state():
    """module-level state of every simulated process."""
    return tuple(
        (key[0], c.state()) for key, c in sorted(W._COPIES.items(),
                                                 key=lambda kv: kv[0][0]))


class NotThere:
    def __repr__(self):
        return "<absent>"


ABSENT = NotThere()


def attempt(fn, *args, **kwargs):
    """('ok', value) or (exception class name, exception)."""
    W.LIMIT.n = 0
    try:
        return "ok", fn(*args, **kwargs)
    except Exception as ex:
        return type(ex).__name__, ex


VIEWS = ("keys", "iterkeys", "iteritems", "itervalues", "str", "lookup",
         "get")


def view(pad, which, model, where, equal=same):
    """one way of looking at a store, by itself."""
    def alike(got, want):
        rest = list(want)
        for item in got:
            at = [i for i, w in enumerate(rest) if item[0] == w[0]
                  and (len(w) == 1 or equal(item[-1], w[-1]))]
            if not at:
                return False
            rest.pop(at[0])
        return not rest

    got = attempt({
        "keys": lambda: [(k,) for k in pad.keys()],
        "iterkeys": lambda: [(k,) for k in pad.iterkeys()],
        "iteritems": lambda: list(pad.iteritems()),
        "itervalues": lambda: [(0, v) for v in pad.itervalues()],
        "str": lambda: str(pad),
        "lookup": lambda: [(k, pad[k]) for k in model],
        "get": lambda: [(k, pad.get(k)) for k in model],
    }[which])
    what = lambda: f"{which} by {where}: {show(got)}, should be {model}"
    expect(got[0] == "ok", f"{which}-failed", what)
    if which == "str":
        expect(all(k in got[1] for k in model), which, what)
        return
    want = {"keys": [(k,) for k in model], "iterkeys": [(k,) for k in model],
            "itervalues": [(0, v) for v in model.values()]}.get(
                which, list(model.items()))
    expect(alike(got[1], want), which, what)


def audit_dict(pads, model, missing, label="", listing=True, equal=same):
    """every handle must show exactly `model` (str key -> value)."""
    for name, pad in pads:
        where = f"{label}{name}"
        if listing:
            got = attempt(lambda: list(pad.keys()))
            expect(got[0] == "ok", "keys-failed",
                   f"keys() by {where}: {show(got)}; should be {list(model)}")
            expect(sorted(map(repr, got[1])) == sorted(map(repr, model)),
                   "keys", f"keys() by {where} are {got[1]}, should be "
                           f"{sorted(model)}")
            got = attempt(lambda: list(pad.iterkeys()))
            expect(got[0] == "ok" and sorted(got[1]) == sorted(model),
                   "iterkeys", f"iterkeys() by {where}: {show(got)}, should "
                               f"be {sorted(model)}")
            got = attempt(lambda: list(pad.iteritems()))
            expect(got[0] == "ok", "iteritems-failed",
                   f"iteritems() by {where}: {show(got)}")
            keys = [k for k, _ in got[1]]
            expect(sorted(keys) == sorted(model) and all(
                equal(v, model[k]) for k, v in got[1]), "iteritems",
                f"iteritems() by {where} gave {got[1]!r}, should hold "
                f"{model!r}")
            got = attempt(lambda: list(pad.itervalues()))
            expect(got[0] == "ok", "itervalues-failed",
                   f"itervalues() by {where}: {show(got)}")
            expect(len(got[1]) == len(model) and all(
                equal(v, model[k]) for k, v in zip(keys, got[1])),
                "itervalues", f"itervalues() by {where} gave {got[1]!r}, "
                              f"should hold {model!r}")
            got = attempt(lambda: (str(pad), repr(pad)))
            expect(got[0] == "ok", "str", f"str() by {where}: {show(got)}")
            for k in model:
                expect(k in got[1][0] or repr(k)[1:-1] in got[1][0],
                       "str", f"str() by {where} is "
                       f"{got[1][0]!r}, without key {k!r}")
        for k, v in model.items():
            got = attempt(lambda: pad[k])
            expect(got[0] == "ok" and equal(got[1], v), "lookup",
                   f"[{k!r}] by {where} is {show(got)}, should be {v!r}")
            got = attempt(lambda: pad.get(k, ABSENT))
            expect(got[0] == "ok" and equal(got[1], v), "get",
                   f"get({k!r}) by {where} is {show(got)}, should be {v!r}")
            raw = attempt(lambda: pad.get_raw(k))
            for got in (attempt(lambda: pad.get(k, ABSENT, fetch=False)),
                        attempt(lambda: pad.__getitem__(k, fetch=False))):
                expect(got[0] == "ok" and hasattr(got[1], "buf")
                       and ("ok", bytes(got[1].buf)) == raw, "block",
                       f"the block of {k!r} is {show(got)} by {where}, "
                       f"should hold {show(raw)}")
                got[1].close()
        for k in missing:
            if str(k) in model:
                continue
            got = attempt(lambda: pad[k])
            expect(is_a(got, "KeyError"), "lookup-missing",
                   f"[{k!r}] by {where} is {show(got)}, should be KeyError")
            got = attempt(lambda: pad.get(k, ABSENT))
            expect(got == ("ok", ABSENT), "get-missing",
                   f"get({k!r}, default) by {where} is {show(got)}, should "
                   "be the default")
            got = attempt(lambda: pad.get(k, ABSENT, fetch=False))
            expect(got == ("ok", ABSENT), "get-missing",
                   f"get({k!r}, default, fetch=False) by {where} is "
                   f"{show(got)}, should be the default")
            got = attempt(lambda: pad.get(k))
            expect(got == ("ok", None), "get-missing",
                   f"get({k!r}) by {where} is {show(got)}, should be None")


# pairs of keys that a careless comparison takes for one
ALIKE = ["like", "like ", " like", "Like", "like\n", "like\t", "like.",
         "like\u200b", "l\u0456ke", "\u00e9like", "e\u0301like", "\ufb01x",
         "fix", "\u212a", "K", "\u00df", "ss", "like0", "like00", "7.0", "7",
         "+7", "7 ", "'like'", "b'like'",
         # nearly reserved
         "_index", "__index__", "INDEX", " index", "indices", "inde", "ndex",
         "0index", "ind ex", "-index", "\u0131ndex", "in", "key_index", "\tindex",
         "'index'", "count_index", "xindex"]

# keys that are equal (and hash alike), but not as text; each by both handles
EQUALS = [k for key in (1, True, 1.0, 0, False, 0.0, -0.0, ("t", 1),
                        ("t", True)) for k in (key, key)]
