"""C05: concurrent operations on shared stores are atomic."""
import numpy as np

from .. import simshm
from .. import world as W
from ..core import Hang, SchedHarness
from ..stores import attempt, same, same_array, show

LEVEL = "model_checking"
RULE = ("every schedule of each scenario up to the stated preemption bound "
        "(none where it says so), each shared-memory system call and buffer "
        "access being atomic; on every one, the results of all operations "
        "and the final contents must be those of some sequential order that "
        "respects real time")
ASSUMPTIONS = [
    "no two processes write one key's value at a time, and none reads a "
    "value that another is writing (metadata, listings and index operations "
    "may overlap freely)",
    "shared memory is sequentially consistent",
]

NP = {"m": 1, "n": ["longer", {"value": 2.5}], "o": "x" * 50}
GP = {"m": np.array([1, 2], dtype="i4"), "n": np.arange(12.).reshape(3, 4),
      "o": np.array(["a", "bc"])}
IX = {"m": {"n": 1}, "n": ["a", "b", "c"] * 3, None: None}


# -- sequential models: state is a tuple of (key, value name) pairs ----------

def model(kind, state, op):
    """(expected result, new state)"""
    what, d = op[0], dict(state)
    if what in ("set", "add"):
        if op[2] is None:
            d.setdefault(op[1], None)
        else:
            d[op[1]] = op[2]
        return "ok", tuple(sorted(d.items(), key=repr))
    if what == "new":
        if op[1] in d:
            return "exists", state
        d[op[1]] = op[2]
        return "ok", tuple(sorted(d.items(), key=repr))
    if what == "del":
        if op[1] not in d:
            return "KeyError", state
        del d[op[1]]
        return "ok", tuple(sorted(d.items(), key=repr))
    if what == "keys":
        return tuple(sorted(d)), state
    if what == "items":
        return tuple(sorted(d.items(), key=repr)), state
    if what == "get":
        return (d[op[1]] if op[1] in d else "KeyError"), state
    if what == "open":
        return "ok", state
    raise AssertionError(op)


def linearizable(kind, start, calls, final):
    """calls: list of (op, result, called at, returned at)"""
    seen = set()

    def search(state, left):
        if not left:
            return state == final
        key = (state, left)
        if key in seen:
            return False
        seen.add(key)
        first_return = min(calls[i][3] for i in left)
        for i in left:
            op, result, called, returned = calls[i]
            if called > first_return:
                continue
            want, after = model(kind, state, op)
            if want == result and search(after, left - {i}):
                return True
        return False

    return search(start, frozenset(range(len(calls))))


# -- the real thing ------------------------------------------------------------

def menu(kind):
    return {"Notepad": NP, "GridPaper": GP}.get(kind, IX)


def name_of(kind, value):
    for k, v in menu(kind).items():
        if (same_array if kind == "GridPaper" else same)(v, value):
            return k
    return f"garbage {value!r}"


def handle(kind, ix, create=False):
    mod = W.copy(ix)["codex.implements"]
    return getattr(mod, kind)("p", create=create)


def perform(kind, s, op, ix=0):
    what = op[0]
    value = menu(kind).get(op[2]) if len(op) > 2 else None
    index = kind.endswith("Index")

    def do():
        if what == "open":
            handle(kind, ix)
            return "ok"
        if what in ("set", "add"):
            if index:
                s.add(op[1], *([] if value is None else [value]))
            else:
                s[op[1]] = value
            return "ok"
        if what == "new":
            if index:
                s.add(op[1], *([] if value is None else [value]),
                      exists_ok=False)
            else:
                s.set(op[1], value, exists_ok=False)
            return "ok"
        if what == "del":
            del s[op[1]]
            return "ok"
        if what == "keys":
            return tuple(sorted(s.update() if index else s.keys()))
        if what == "items":
            return tuple(sorted(
                ((k, name_of(kind, v)) for k, v in s.items()), key=repr))
        if what == "get":
            if index:
                import json
                return name_of(kind, json.loads(s[op[1]]))
            return name_of(kind, s[op[1]])
        raise AssertionError(op)

    try:
        return do()
    except Exception as ex:
        names = [c.__name__ for c in type(ex).__mro__]
        if what == "new" and ("FileExistsError" in names
                              or "KeyError" in names):
            return "exists"
        if "KeyError" in names:
            return "KeyError"
        return f"{type(ex).__name__}: {ex}"[:200]


class Atomic(SchedHarness):
    name = "atomic"

    def scenarios(self, tier):
        T, M, N, G = "TagIndex", "MetaTagIndex", "Notepad", "GridPaper"
        quick = tier == "quick"

        def b(q, t):
            return q if quick else t

        out = []

        def add(label, kind, start, procs, bound):
            out.append((f"{kind}: {label}", (kind, start, procs), bound))

        a0, b0, c0 = ("a", None), ("b", None), ("c", None)
        am, bn, co = ("a", "m"), ("b", "n"), ("c", "m")
        add("add two keys", T, (), [[("add", "a", None)],
                                    [("add", "b", None)]], b(3, 5))
        add("add one key twice", T, (), [
            [("add", "a", None), ("keys",)], [("add", "a", None)]], b(2, 4))
        add("only one creates", T, (), [
            [("new", "a", None)], [("new", "a", None)]], b(3, 5))
        add("remove two keys", T, (a0, b0, c0), [
            [("del", "a")], [("del", "c")]], b(2, 4))
        add("remove one key twice", T, (a0, b0), [
            [("del", "a")], [("del", "a")]], b(2, 4))
        add("add and remove", T, (a0, b0), [
            [("del", "a")], [("add", "c", None)]], b(2, 4))
        add("come and go, listed", T, (a0,), [
            [("add", "b", None), ("del", "b")], [("keys",), ("keys",)]],
            b(2, 3))
        add("remove, listed", T, (a0, b0, c0), [
            [("del", "a")], [("keys",)]], b(3, 5))
        add("last one removed, listed", T, (a0,), [
            [("del", "a"), ("add", "b", None)], [("keys",)]], b(2, 3))
        add("three at once", T, (a0,), [
            [("add", "b", None)], [("del", "a")], [("keys",)]], b(1, 2))
        add("opened while changing", T, (a0,), [
            [("add", "b", None)], [("open",), ("keys",)]], b(2, 3))

        add("set one twice, shown", M, (am,), [
            [("add", "a", "n")], [("items",)]], b(3, 4))
        add("set one key by two", M, (), [
            [("add", "a", "m")], [("add", "a", "n")]], b(2, 4))
        add("remove, looked up", M, (am, bn), [
            [("del", "a")], [("get", "b")]], b(3, 4))
        add("remove, shown", M, (am, bn, co), [
            [("del", "a")], [("items",)]], b(2, 3))
        add("come and go, shown", M, (am,), [
            [("del", "a"), ("add", "b", "n")], [("items",)]], b(2, 3))
        add("three at once", M, (am, bn), [
            [("add", "c", "m")], [("del", "a")], [("get", "b")]], b(1, 2))

        for kind in (N, G):
            add("set two keys", kind, (), [
                [("set", "a", "m")], [("set", "b", "n")]], b(2, 3))
            add("only one creates", kind, (), [
                [("new", "a", "m")], [("new", "a", "n")]], b(2, 3))
            add("delete beside a reader", kind, (am, bn), [
                [("del", "a")], [("get", "b")]], b(2, 3))
            add("delete two keys", kind, (am, bn, co), [
                [("del", "a")], [("del", "c")]], b(2, 3))
            add("grow a value, listed", kind, (am, bn), [
                [("set", "a", "n")], [("keys",), ("get", "b")]], b(2, 3))
            add("come and go beside a reader", kind, (am, bn), [
                [("del", "a"), ("set", "c", "m")], [("get", "b"),
                                                    ("keys",)]], b(1, 2))
            add("set and delete", kind, (am,), [
                [("set", "b", "n")], [("del", "a")]], b(2, 3))
            add("three at once", kind, (am,), [
                [("set", "b", "n")], [("set", "c", "m")], [("keys",)]],
                b(1, 2))
        add("three create", N, (), [[("new", "a", v)] for v in "mno"],
            b(1, 2))
        if not quick:
            add("three create", G, (), [[("new", "a", v)] for v in "mno"], 2)
            add("two operations each", T, (a0, b0), [
                [("add", "c", None), ("del", "a")],
                [("del", "b"), ("add", "a", None)]], 2)
            add("four at once", T, (a0, b0), [
                [("add", "c", None)], [("del", "a")], [("del", "b")],
                [("keys",)]], 1)
        return out

    def prepare(self):
        for i in range(4):
            W.copy(i)

    def build(self, args):
        kind, start, procs = args
        W.reset()
        first = handle(kind, 0, True)
        for key, value in start:
            perform(kind, first, ("set", key, value))
        handles = [handle(kind, i) for i in range(len(procs))]
        # handles that have seen the store before
        for h in handles:
            attempt(lambda: list(h.update() if kind.endswith("Index")
                                 else h.keys()))

        def body(i):
            def go(run, proc):
                for n, op in enumerate(procs[i]):
                    run.events.append(("call", i, n))
                    result = perform(kind, handles[i], op, i)
                    run.events.append(("return", i, n, result))
                return "done"
            return go

        return [body(i) for i in range(len(procs))]

    def check(self, args, run):
        kind, start, procs = args
        if run.verdict == "deadlock":
            stuck = [(p.ix, p.pending) for p in run.procs if not p.result]
            return ("deadlock", f"no process can proceed: {stuck}, blocks "
                                f"{simshm.FS.listing()}")
        if run.verdict == "horizon":
            return ("livelock", "no completion within the step horizon")
        if run.errors:
            ix, ex = run.errors[0]
            return (f"error:{type(ex).__name__}", f"process {ix}: {ex!r}")
        calls, at = {}, {}
        for t, e in enumerate(run.events):
            if e[0] == "call":
                at[e[1:3]] = t
            else:
                calls[e[1:3]] = (procs[e[1]][e[2]], e[3], at[e[1:3]], t)
        calls = [calls[k] for k in sorted(calls)]
        # the final contents, and that everything still works
        try:
            s = handle(kind, 0)
            keys = perform(kind, s, ("keys",))
            if kind == "TagIndex":
                final = tuple((k, None) for k in keys)
            elif kind == "MetaTagIndex":
                final = perform(kind, s, ("items",))
                if isinstance(final, tuple) and keys != tuple(
                        sorted(k for k, _ in final)):
                    return ("final", f"keys {keys}, items {final}")
            else:
                final = tuple((k, perform(kind, s, ("get", k)))
                              for k in keys)
            final = tuple(sorted(final, key=repr))
        except Hang:
            return ("stuck", f"afterwards the store waits for ever; blocks "
                             f"{simshm.FS.listing()}")
        results = [(op, result) for op, result, _, _ in calls]
        run.outcome = repr((results, final))
        if not linearizable(kind, tuple(sorted(start, key=repr)), calls,
                            final):
            return ("not-atomic", f"from {start}: {results}, leaving "
                                  f"{final}: no order explains this")
        try:
            for k in [k for k, _ in final]:
                if perform(kind, s, ("del", k)) != "ok":
                    return ("broken", f"{k!r} can't be deleted afterwards; "
                                      f"contents {final}")
            perform(kind, s, ("set", "z", None if kind == "TagIndex"
                              else "m"))
            if perform(kind, s, ("keys",)) != ("z",):
                return ("broken", f"keys after emptying and refilling: "
                                  f"{perform(kind, s, ('keys',))}")
            s.close()
        except Hang:
            return ("stuck", "afterwards the store waits for ever")
        left = simshm.FS.listing()
        if left:
            return ("left-behind", f"after closing: {left}")
        return None


class Primitives(SchedHarness):
    """open_block and delete_block racing with each other."""
    name = "primitives"

    def scenarios(self, tier):
        o, ov, d, dm, f = ("open",), ("over",), ("del",), ("del?",), ("ex",)
        sets = {
            "create twice": ((), [[o], [o]]),
            "create and attach": ((), [[o, f], [o, f]]),
            "create and delete": ((), [[o], [dm]]),
            "attach and delete": (("x",), [[o], [dm]]),
            "overwrite and delete": (("x",), [[ov], [dm]]),
            "overwrite and test": (("x",), [[ov], [f]]),
            "test while created": ((), [[o], [f, f]]),
            "two delete": (("x",), [[d], [d]]),
            "create twice and delete": ((), [[o], [o], [dm]]),
            "three": (("x",), [[o], [dm], [f]]),
        }
        return [(k, v, None if len(v[1]) < 3 or tier != "quick" else 4)
                for k, v in sets.items()]

    def prepare(self):
        for i in range(3):
            W.copy(i)

    def build(self, args):
        start, procs = args
        W.reset()
        if start:
            W.copy(0)["codex.memutilz"].open_block("x", 2)

        def body(i):
            m = W.copy(i)["codex.memutilz"]
            kept = []

            def one(act):
                if act == "open":
                    kept.append(m.open_block("x", 2))
                    return kept[-1].size
                if act == "over":
                    kept.append(m.open_block("x", 2, overwrite=True))
                    return kept[-1].size
                if act == "del":
                    return m.delete_block("x")
                if act == "del?":
                    return m.delete_block("x", missing_ok=True)
                return m.exists_block("x")

            def go(run, proc):
                for n, (act,) in enumerate(procs[i]):
                    got = attempt(one, act)
                    run.events.append((i, n, act, got[0], repr(got[1])))
                run.kept = getattr(run, "kept", []) + kept
                return "done"
            return go

        return [body(i) for i in range(len(procs))]

    def check(self, args, run):
        start, procs = args
        if run.verdict in ("deadlock", "horizon"):
            return (run.verdict, "a process waits for ever")
        if run.errors:
            return ("error", repr(run.errors[0]))
        run.outcome = repr(sorted(run.events))
        acts = [e[2] for e in run.events]
        deleted = sum(e[2] == "del" and e[3] == "ok" for e in run.events)
        for i, n, act, how, value in run.events:
            if act == "del?" and "cannot mmap an empty" in value and (
                    "open" in acts or "over" in acts):
                continue     # deleting what is being created: not judged
            if how != "ok" and not (act == "del" and
                                    how == "FileNotFoundError"):
                return ("failed", f"process {i}: {act} raised {value}")
            if act in ("open", "over") and value != "2":
                return ("size", f"process {i}: {act} gave size {value}")
            if act == "ex" and "del?" not in acts and "over" not in acts:
                made = start or any(
                    e[:2] < (i, n) and e[0] == i and e[2] == "open"
                    for e in run.events)
                if made and value != "True":
                    return ("exists", "exists_block is False for a block "
                                      "that was there all the time")
        if acts.count("del") == 2 and deleted != 1:
            return ("delete", f"{deleted} of two deletions succeeded")
        there = "x" in simshm.FS.names
        gone = "del?" in acts or deleted
        if not gone and not there:
            return ("vanished", "the block is gone")
        if there and len(simshm.FS.names["x"].data) != 2:
            return ("size", "the block has the wrong size")
        return None


def harnesses(tier):
    return [Primitives(), Atomic()]
