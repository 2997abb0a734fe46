"""M01: a Composition computes its steps in order with their inserts."""
import copy
import enum
import functools
import itertools

import cytoolz

from ..core import CaseHarness, SeqHarness
from ..loader import load
from ..judge import ARRAY, attempt, dump, expect, same, show

LEVEL = "model_checking"
RULE = ("every pipeline of 1-3 steps from a menu of callables and partials, "
        "each with every insert set of a menu, in several notations, executed "
        "and iterated repeatedly; and every history of adding steps and "
        "inserts, reindexing, executing and iterating up to the stated depth, "
        "and all orders of two interleaved iterations, and of executions in "
        "executions, against a fold over (function, arguments) terms")
ASSUMPTIONS = [
    "steps are functions of their arguments; inserts leave no gap between the "
    "positions they and the signal fill",
]


def comp():
    return load("composition")


def term(name):
    def fn(*args, **kwargs):
        return name, args, tuple(sorted(kwargs.items()))
    fn.__name__ = name
    return fn


class Method:
    def meth(self, *args, **kwargs):
        return "m", args, tuple(sorted(kwargs.items()))


class Callable:
    def __call__(self, *args, **kwargs):
        return "o", args, tuple(sorted(kwargs.items()))


class Holder:
    """a decorator class: holds a function, does more than calling it"""

    def __init__(self, func):
        self.func = func

    def __call__(self, *args, **kwargs):
        return "held", self.func(*args, **kwargs)


def unary(x, k=None, z=0):
    return "u", x, k, z


def nothing(*args, **kwargs):
    return None


SOURCE = "def d(*args, **kwargs):\n    return 'd', args, " \
         "tuple(sorted(kwargs.items()))\n"


def menu():
    """name -> (callable, plain function, baked args, baked keywords)"""
    f, g = term("f"), term("g")
    P = functools.partial
    m, o, h = Method().meth, Callable(), Holder(g)
    d = load("dynamic").Dynamic(SOURCE, lazy=True)
    inner = P(g, "b0")
    return {
        "f": (f, f, (), {}),
        "g": (g, g, (), {}),
        "p1": (P(f, "b0"), f, ("b0",), {}),
        "pk": (P(f, k="bk"), f, (), {"k": "bk"}),
        "p2": (P(f, "b0", None, k="bk", j="bj"), f, ("b0", None),
               {"k": "bk", "j": "bj"}),
        "pp": (P(inner, "b1", k="bk"), g, ("b0", "b1"), {"k": "bk"}),
        "p0": (P(f), f, (), {}),
        "cu": (cytoolz.curry(f, "b0", k="bk"), f, ("b0",), {"k": "bk"}),
        "m": (m, m, (), {}),
        "pm": (P(m, "b0"), m, ("b0",), {}),
        "o": (o, o, (), {}),
        "h": (h, h, (), {}),
        "d": (d, d, (), {}),
        "u": (unary, unary, (), {}),
        "pu": (P(unary, k="bk"), unary, (), {"k": "bk"}),
        "n": (nothing, nothing, (), {}),
    }


INSERTS = [None, {}, {0: "i0"}, {1: "i1"}, {0: "i0", 1: "i1"}, {2: "i2"},
           {0: None, 2: "i2"}, {"k": "ik"}, {1: "i1", "k": None},
           {1: "i1", 0: 0, "j": "ij", "z": "iz"}]


def arguments(step, insert, state):
    """what the step is to be called with; None if positions have gaps."""
    _, func, args, keywords = step
    insert = insert or {}
    at = dict(enumerate(args))
    at.update({k: v for k, v in insert.items() if isinstance(k, int)})
    keywords = dict(keywords)
    keywords.update({k: v for k, v in insert.items() if isinstance(k, str)})
    opening = next(i for i in itertools.count() if i not in at)
    at[opening] = state
    if sorted(at) != list(range(len(at))):
        return None
    return [at[i] for i in range(len(at))], keywords


def call(step, insert, state):
    args, keywords = arguments(step, insert, state)
    return step[1](*args, **keywords)


def possible(name, insert, steps):
    got = arguments(steps[name], insert, 0)
    if got is None:
        return False
    if name == "identity":
        return len(got[0]) == 1 and not got[1]
    if name in ("u", "pu"):
        return len(got[0]) == 1 and "j" not in got[1]
    return True


class Pipelines(CaseHarness):
    """every small pipeline against the fold."""
    name = "pipelines"

    def pairs(self, names, inserts):
        steps = menu()
        return [(n, i) for n in names for i in range(len(inserts))
                if possible(n, inserts[i], steps)]

    def cases(self, tier):
        full = self.pairs(list(menu()), INSERTS)
        few = self.pairs(["f", "p1", "pp", "h", "pu", "n"], INSERTS[:8])
        for form in range(4):
            for one in full:
                for signal in (None, 0, "sig"):
                    yield form, signal, (one,)
        for i, pair in enumerate(itertools.product(full, full)):
            yield i % 4, "sig", pair
        if tier == "quick":
            few = few[::2]
        for i, trio in enumerate(itertools.product(few, few, few)):
            yield i % 4, "sig", trio

    def run(self, case):
        form, signal, parts = case
        steps = menu()
        inserts = [copy.deepcopy(INSERTS[i]) for _, i in parts]
        names = [list(range(len(parts))), list(range(len(parts))),
                 ["b", "a", "c"][:len(parts)],
                 [(2, "x"), 0, ""][:len(parts)]][form]
        calls = [steps[n][0] for n, _ in parts]
        if form == 0:
            steps_in, inserts_in = calls, inserts
        else:
            steps_in = dict(zip(names, calls))
            # inserts in another order than the steps, none for None
            inserts_in = {n: i for n, i in reversed(list(zip(names, inserts)))
                          if i is not None or form == 1}
        want, state = [], signal
        for (n, i) in parts:
            state = call(steps[n], INSERTS[i], state)
            want.append(state)
        c = comp().Composition(steps_in, inserts=inserts_in)
        before = dump([inserts, [getattr(x, "keywords", 0) for x in calls]])
        for how, fn in (("execute", lambda: c.execute(signal)),
                        ("call", lambda: c(signal)),
                        ("execute again", lambda: c.execute(signal=signal))):
            got = attempt(fn)
            expect(got[0] == "ok" and same(got[1], want[-1]), "result",
                   f"{how} of steps {parts} with inserts {inserts_in} on "
                   f"{signal!r}: {show(got)}; should be {want[-1]!r}")
        for _ in range(2):
            got = attempt(lambda: list(c.itercall(signal)))
            expect(got[0] == "ok" and same(got[1], want), "iteration",
                   f"iterating steps {parts} with {inserts_in}: {show(got)}; "
                   f"should be {want!r}")
        expect(tuple(c.index) == tuple(names), "index",
               f"index is {c.index}, should be {names}")
        expect(dump([inserts, [getattr(x, "keywords", 0) for x in calls]])
               == before, "changed", f"executing changed its inserts to "
                                     f"{inserts_in}")
        return want, len(parts) > 1 or bool(inserts[0])


class Histories(SeqHarness):
    """every history of configuring and executing."""
    name = "histories"
    direct = True

    STARTS = {
        "default": (None, None),
        "list": (["f", "p1"], None),
        "map": ({"a": "p1", 3: "u"}, {"a": {1: "i1"}}),
        "empty-then": ([], [None]),
        "subclass": (["f", "pk"], [{"k": "x"}, None]),
    }

    def depth(self, tier):
        return 5 if tier == "quick" else 6

    def ops(self, tier):
        ops = [("new", s) for s in self.STARTS]
        ops += [("step", fn, name) for fn in ("g", "p2", "n")
                for name in (None, "a", 0, 1)]
        ops += [("insert", step, key, value)
                for step, key, value in (
                    ("a", 0, "w0"), ("a", "k", "wk"), ("a", 0, None),
                    (0, 0, "v0"), (0, "k", None), (1, 1, "v1"),
                    (3, "k", "vk"), ("later", "k", 1))]
        ops += [("exec", None), ("iter", 1), ("reindex",)]
        return ops

    def world(self):
        class World:
            comp = None
            log = ()
        return World()

    def enabled(self, w, op):
        if (op[0] == "new") != (w.comp is None):
            return False
        if op[0] == "new":
            return True
        # no calls that would leave gaps or that the functions can't take
        steps, inserts = dict(w.steps), {k: dict(v) for k, v in
                                         w.inserts.items() if v}
        if op[0] == "step":
            name = len(steps) + 1 if op[2] is None else op[2]
            steps[name] = op[1]
        elif op[0] == "insert":
            inserts.setdefault(op[1], {})[op[2]] = op[3]
        elif op[0] == "reindex":
            steps = dict(enumerate(steps.values()))
        return bool(steps) and all(
            possible(s, inserts.get(n), self.menu) for n, s in steps.items())

    menu = menu() | {"identity": ((lambda x: x,) * 2) + ((), {})}

    def step(self, w, op):
        w.outcome = None
        if op[0] == "new":
            steps, inserts = copy.deepcopy(self.STARTS[op[1]])
            w.inserts = dict(enumerate(inserts)) if isinstance(
                inserts, list) else dict(inserts or {})
            made = steps
            if isinstance(steps, list):
                made = [self.menu[s][0] for s in steps]
                w.steps = dict(enumerate(steps))
            elif steps is not None:
                made = {n: self.menu[s][0] for n, s in steps.items()}
                w.steps = dict(steps)
            cls = comp().Composition
            w.special = []
            if op[1] == "subclass":
                class Sub(cls):
                    def _bind_special_runtime_kwargs(self, kwargs):
                        w.special.append(dict(kwargs))
                        self.add_insert(1, "k", kwargs.get("level"))
                cls = Sub
            w.kind = op[1]
            w.comp = cls(made, inserts=copy.deepcopy(inserts), name="it")
            if steps is None:
                w.steps = {0: "identity"}
            return
        c = w.comp
        if op[0] == "step":
            name = len(w.steps) + 1 if op[2] is None else op[2]
            w.steps[name] = op[1]
            fn = self.menu[op[1]][0]
            got = attempt(c.add_step, fn, *([] if op[2] is None else [op[2]]))
            expect(got[0] == "ok", "add_step", f"{op} failed: {show(got)}")
        elif op[0] == "insert":
            w.inserts[op[1]] = dict(w.inserts.get(op[1]) or {})
            w.inserts[op[1]][op[2]] = op[3]
            got = attempt(c.add_insert, *op[1:])
            expect(got[0] == "ok", "add_insert", f"{op} failed: {show(got)}")
        elif op[0] == "reindex":
            w.steps = dict(enumerate(w.steps.values()))
            c.reindex()
        elif op[0] == "exec":
            self.judge_run(w, "s0", op)
        elif op[0] == "iter":
            self.bind(w, {})
            it = c.itercall("s1")
            got = attempt(lambda: [next(it) for _ in range(op[1])])
            want = self.fold(w, "s1")[:op[1]]
            expect(got[0] == "ok" and same(got[1], want), "iteration",
                   f"first results are {show(got)}, should be {want}")

    def bind(self, w, kwargs):
        if w.kind == "subclass":
            w.inserts.setdefault(1, {})
            w.inserts[1] = dict(w.inserts[1] or {})
            w.inserts[1]["k"] = kwargs.get("level")

    def fold(self, w, signal):
        out = []
        for name, s in w.steps.items():
            signal = call(self.menu[s], w.inserts.get(name), signal)
            out.append(signal)
        return out

    def judge_run(self, w, signal, op):
        kwargs = {"level": signal} if w.kind == "subclass" else {}
        self.bind(w, kwargs)
        want = self.fold(w, signal)
        w.special.clear()
        got = attempt(w.comp.execute, signal, **kwargs)
        expect(got[0] == "ok" and same(got[1], want[-1]), "result",
               f"execute({signal!r}) of {w.steps} with inserts {w.inserts} "
               f"is {show(got)}, should be {want[-1]!r}")
        if w.kind == "subclass":
            expect(w.special == [kwargs], "special-kwargs",
                   f"the runtime kwargs were bound as {w.special}, should be "
                   f"{[kwargs]}")
        w.outcome = want

    def audit(self, w):
        if not w.steps:
            return
        if not all(possible(s, w.inserts.get(n), self.menu)
                   for n, s in w.steps.items()):
            return
        c = w.comp
        expect(tuple(c.index) == tuple(w.steps), "index",
               f"index is {c.index}, should be {tuple(w.steps)}")
        expect(set(c.insert_index) >= {k for k, v in w.inserts.items() if v},
               "insert_index", f"insert_index is {c.insert_index}, should be "
                               f"{list(w.inserts)}")
        for signal in ("s0", None):
            self.judge_run(w, signal, "audit")
        kwargs = {}
        self.bind(w, kwargs)
        want = self.fold(w, "s2")
        for _ in range(2):
            got = attempt(lambda: list(c.itercall("s2")))
            expect(got[0] == "ok" and same(got[1], want), "iteration",
                   f"iteration is {show(got)}, should be {want}")
        got = attempt(lambda: (str(c), repr(c)))
        expect(got[0] == "ok", "str", f"str() failed: {show(got)}")
        w.outcome = want

    def canon(self, w):
        return (w.kind, list(w.steps.items()), list(w.inserts.items()),
                dump({k: v for k, v in vars(w.comp).items()}))


class Overlapping(CaseHarness):
    """executions of one pipeline that are interleaved, or nested in others"""
    name = "overlapping"
    FEW = [("f", None), ("p1", None), ("pk", {1: "i1"}), ("u", {"k": "ik"}),
           ("n", None)]

    def cases(self, tier):
        few = self.FEW if tier == "thorough" else self.FEW[1:4]
        for n in (1, 2, 3):
            for parts in itertools.product(range(len(few)), repeat=n):
                parts = tuple(few[i] for i in parts)
                # who goes on, in every order, and where somebody executes
                for first in itertools.combinations(range(2 * n), n):
                    word = "".join("A" if i in first else "B"
                                   for i in range(2 * n))
                    for at in range(2 * n + 1):
                        yield "interleaved", parts, word[:at] + "x" + word[at:]
                # which of the steps starts the pipeline again, how deep
                for again in range(1, 2 ** n):
                    for depth in (1, 2, 3):
                        for how in ("execute", "iterate", "half"):
                            yield "nested", parts, (again, depth, how)

    def run(self, case):
        kind, parts, how = case
        steps = menu()
        inserts = [copy.deepcopy(i) for _, i in parts]
        return getattr(self, kind)(steps, parts, inserts, how)

    def interleaved(self, steps, parts, inserts, word):
        c = comp().Composition([steps[n][0] for n, _ in parts],
                               inserts=inserts)

        def fold(signal):
            for name, insert in parts:
                signal = call(steps[name], insert, signal)
                yield signal
        real = {"A": c.itercall("a"), "B": c.itercall("b")}
        want = {"A": fold("a"), "B": fold("b")}
        for i, who in enumerate(word):
            if who == "x":
                got, should = attempt(c, "x"), list(fold("x"))[-1]
            else:
                got, should = attempt(next, real[who]), next(want[who])
            expect(got[0] == "ok" and same(got[1], should), "interleaved",
                   lambda: f"two iterations over steps {parts}, and an "
                   f"execution (x), in the order {word}: at {i} there is "
                   f"{show(got)}, should be {should!r}")
        for who in "AB":
            got = attempt(next, real[who], "end")
            expect(got == ("ok", "end"), "interleaved",
                   lambda: f"two iterations over {parts} in the order {word}: "
                           f"after the last step there is {show(got)}")
        return word, True

    def nested(self, steps, parts, inserts, how):
        again, depth, how = how
        inside = []

        def outer(i, name):
            def fn(*args, **kwargs):
                result = steps[name][1](*args, **kwargs)
                if not again >> i & 1 or len(inside) >= depth:
                    return result
                inside.append(i)
                try:
                    signal = "inner", len(inside)
                    if how == "execute":
                        return result, c(signal)
                    if how == "iterate":
                        return result, list(c.itercall(signal))
                    return result, next(c.itercall(signal))
                finally:
                    inside.pop()
            return fn
        made = []
        for i, (name, _) in enumerate(parts):
            _, _, args, keywords = steps[name]
            made.append(functools.partial(outer(i, name), *args, **keywords)
                        if args or keywords else outer(i, name))
        c = comp().Composition(made, inserts=inserts)

        def fold(signal, level):
            results = []
            for i, (name, insert) in enumerate(parts):
                signal = call(steps[name], insert, signal)
                if again >> i & 1 and level < depth:
                    below = fold(("inner", level + 1), level + 1) \
                        if how != "half" else self.head(
                            steps, parts, again, depth, level + 1)
                    signal = signal, {"execute": lambda: below[-1],
                                      "iterate": lambda: below,
                                      "half": lambda: below}[how]()
                results.append(signal)
            return results
        for _ in range(2):
            got, want = attempt(c, "s"), fold("s", 0)[-1]
            expect(got[0] == "ok" and same(got[1], want), "nested",
                   lambda: f"steps {parts}, of which {again:b} (bits) start "
                   f"the same pipeline again ({how}) up to depth {depth}: "
                   f"{show(got)}, should be {want!r}")
        return want, True

    def head(self, steps, parts, again, depth, level):
        """the first result of a nested iteration"""
        name, insert = parts[0]
        signal = call(steps[name], insert, ("inner", level))
        if again & 1 and level < depth:
            signal = signal, self.head(steps, parts, again, depth, level + 1)
        return signal


class Whole(int):
    def __repr__(self):
        return f"Whole({int(self)})"


class Name(str):
    def __repr__(self):
        return f"Name({str(self)})"


# what positions and keywords may be given as
KEYS = {"plain": (int, str), "heirs": (Whole, Name), "bool": (bool, str),
        "enums": (enum.IntEnum("At", [(f"n{i}", i) for i in range(102)]),
                  enum.StrEnum("Word", {"k": "k"}))}


class Positions(CaseHarness):
    """steps with many positional arguments, the signal in any of them"""
    name = "positions"

    def cases(self, tier):
        for n in (2, 9, 10, 11, 12, 21, 101):
            for at in sorted({0, 1, 2, 9, 10, 11, n // 2, n - 2, n - 1}):
                if not 0 <= at < n:
                    continue
                for baked in sorted({0, 1, min(2, at), at}):
                    if baked <= at:
                        for order in ("up", "down"):
                            for how in ("inserts", "add"):
                                for key in KEYS:
                                    if key == "bool" and n != 2:
                                        continue
                                    yield n, at, baked, order, how, key

    def run(self, case):
        n, at, baked, order, how, key = case

        def f(*args, **kwargs):
            # as plain strings, whatever they were given as
            return "f", args, {"".join(k): v for k, v in kwargs.items()}
        step = functools.partial(f, *[f"b{i}" for i in range(baked)]) \
            if baked else f
        keys = [i for i in range(baked, n) if i != at]
        if order == "down":
            keys.reverse()
        insert = {KEYS[key][0](i): f"i{i}" for i in keys}
        insert[KEYS[key][1]("k")] = "ik"
        if how == "inserts":
            c = comp().Composition([f, step, f], inserts=[None, insert, None])
        else:
            c = comp().Composition({0: f, 1: step, 2: f})
            for k, v in insert.items():
                c.add_insert(1, k, v)
        args = [f"b{i}" if i < baked else f"i{i}" for i in range(n)]
        for signal in ("s", None):
            args[at] = f(signal)
            want = f(f(*args, k="ik"))
            got = attempt(c, signal)
            expect(got[0] == "ok" and same(got[1], want), "positions",
                   lambda: f"a step of {n} arguments of which {baked} are in "
                   f"the partial and the signal is number {at} ({case}): "
                   f"{show(got)}, should be {want}")
        return case, True


class Failed(Exception):
    def __bool__(self):
        return False


STATES = {
    "exception": ValueError("returned"), "falsy": Failed(),
    "stop": StopIteration(3), "interrupt": KeyboardInterrupt(),
    "class": ValueError, "nan": float("nan"), "array": ARRAY,
    "ellipsis": ..., "not": NotImplemented, "false": False, "zero": 0,
    "empty": "", "tuple": (), "list": [], "dict": {}, "none": None,
    "args": ((1, 2), {"k": 1}), "step": print, "generator": None,
}


class States(CaseHarness):
    """whatever steps return is what the next one gets"""
    name = "states"

    def cases(self, tier):
        names = sorted(STATES)
        for signal in names:
            for one in names:
                for two in names if tier == "thorough" else (
                        one, "none", "exception"):
                    for tracked in (False, True):
                        for optional in (False, True):
                            yield signal, one, two, tracked, optional

    def run(self, case):
        signal, one, two, tracked, optional = case
        values = dict(STATES, generator=(i for i in (1, 2)))
        calls = []

        def returns(name):
            def fn(state, *args, **kwargs):
                calls.append((state, args, kwargs))
                return values[name]
            fn.__name__ = name
            return fn
        tracker = load("tracker").TrivialTracker() if tracked else None
        c = comp().Composition(
            [returns(one), functools.partial(returns(two), k=values[one]),
             returns(signal)],
            inserts=[None, {1: values[two]}, {"k": values[two]}],
            tracker=tracker, optional=optional)
        for how in ("execute", "call", "iterate"):
            calls.clear()
            if how == "iterate":
                got = attempt(lambda: list(c.itercall(values[signal])))
                want = [values[one], values[two], values[signal]]
                ok = got[0] == "ok" and len(got[1]) == 3 and all(
                    a is b for a, b in zip(got[1], want))
            else:
                fn = c if how == "call" else c.execute
                got = attempt(fn, values[signal])
                want = values[signal]
                ok = got[0] == "ok" and got[1] is want
            expect(ok, "states", lambda: f"{how} of {case}: {show(got)}, "
                                         f"should be {want!r}")
            want = [(values[signal], (), {}),
                    (values[one], (values[two],), {"k": values[one]}),
                    (values[two], (), {"k": values[two]})]
            ok = len(calls) == 3 and all(
                a[0] is b[0] and len(a[1]) == len(b[1]) and
                all(x is y for x, y in zip(a[1], b[1])) and
                a[2].keys() == b[2].keys() and
                all(a[2][k] is b[2][k] for k in b[2])
                for a, b in zip(calls, want))
            expect(ok, "states", lambda: f"{how} of {case} made the calls "
                                         f"{calls}, should be {want}")
        return case, True


def harnesses(tier):
    return [Pipelines(), Histories(), Overlapping(), Positions(), States()]
