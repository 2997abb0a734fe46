"""M05: a Composition keeps to itself."""
import itertools
from collections import OrderedDict
from functools import partial

from ..core import CaseHarness
from ..judge import attempt, expect, same, show
from ..loader import load

LEVEL = "model_checking"
RULE = ("every history, up to the stated depth, of changing and executing two "
        "Compositions built from the same steps, sends and inserts (given as "
        "mappings or sequences, some shared between steps); afterwards every "
        "result is compared with that of the same operations on a Composition "
        "that is alone with copies of its own, and the arguments with copies "
        "made before")
ASSUMPTIONS = [
    "what a send writes to outside of its pipeline is shared, as are steps",
]


def add(x, n=1, *, m=0):
    return (*x, "add", n, m)


def two(x, n=1, *, m=0):
    return (*x, "two", n, m)


def three(x, n=1, *, m=0):
    return (*x, "three", n, m)


def size(x):
    return len(x)


BAKED = partial(three, m=9)

# each makes (steps, sends, inserts) anew
BUILDS = {
    "mappings": lambda: (
        {"a": add, "b": two}, {"a": [(size, "b", "m")]}, {"b": {"n": 5}}),
    "sequences": lambda: (
        [add, two], [((size, 1, "m"),), None], [{"n": 3}, {}]),
    "ordered": lambda: (
        OrderedDict(a=add, b=two), OrderedDict(a=[(None, "b", "m")]),
        OrderedDict(a={"m": 2})),
    "one insert for all": lambda: (
        {"a": add, "b": two}, None, dict.fromkeys("ab", {"n": 4})),
    "one send for all": lambda: (
        {"a": add, "b": BAKED}, dict.fromkeys("ab", [(size, "b", "n")]),
        None),
    "steps only": lambda: ({"a": add, "b": BAKED}, {}, {}),
    "step missing": lambda: ({"a": add}, {"b": [(size, "a", "m")]},
                             {"b": {"n": 7}, "c": {"m": 1}}),
}


def freeze(thing):
    if isinstance(thing, dict):
        return (type(thing).__name__,
                tuple((k, freeze(v)) for k, v in thing.items()))
    if isinstance(thing, (list, tuple)):
        return (type(thing).__name__, tuple(map(freeze, thing)))
    return getattr(thing, "__name__", repr(thing)), id(thing)


def short(thing):
    if isinstance(thing, dict):
        return {k: short(v) for k, v in thing.items()}
    if isinstance(thing, (list, tuple)):
        return [short(t) for t in thing]
    return getattr(thing, "__name__", thing)


class Together(CaseHarness):
    name = "together"
    deep = 3

    def operations(self, build):
        second = "b" if build != "sequences" else 1
        first = "a" if build != "sequences" else 0
        return [
            ("add_insert", (second, "m", 8)),
            ("add_insert", (first, "n", 6)),
            ("add_step", (three, "c")),
            ("add_step", (three, first)),
            ("add_send", (first, size, second, "n")),
            ("add_capture", (second, None)),
            ("execute", ((1,),)),
            ("iterate", ((2,),)),
        ]

    def cases(self, tier):
        deep = self.deep if tier == "quick" else self.deep + 1
        for build in BUILDS:
            n = len(self.operations(build))
            for late in (False, True):
                for history in itertools.product(
                        itertools.product(range(2), range(n)), repeat=deep):
                    if history[0][0] == 1 and not late:
                        continue        # they are alike
                    yield build, late, history

    @staticmethod
    def do(comp, op, args):
        if op == "iterate":
            return attempt(lambda: list(comp.itercall(*args)))
        if op == "execute":
            return attempt(comp, *args)
        return attempt(getattr(comp, op), *args)[0], None

    @staticmethod
    def state(comp):
        return (comp.index, tuple(map(str, comp.function_names))
                if all(hasattr(s, "__name__") for s in comp.steps.values())
                else None, comp.insert_index, comp.send_index)

    def run(self, case):
        build, late, history = case
        cls = load("composition").Composition
        ops = self.operations(build)
        shared = BUILDS[build]()
        before = freeze(shared)

        def made(args):
            steps, sends, inserts = args
            return cls(steps, sends=sends, inserts=inserts)

        comps = [made(shared), None if late else made(shared)]
        seen = ([], [])
        for who, ix in history:
            if comps[who] is None:
                comps[who] = made(shared)
            op, args = ops[ix]
            seen[who].append(self.do(comps[who], op, args))
            expect(freeze(shared) == before, "arguments",
                   lambda: f"{build}: after {self.tell(ops, history)} the "
                   f"mappings it was built from are {short(shared)}, were "
                   f"{short(BUILDS[build]())}")
        for who in (0, 1):
            if comps[who] is None:
                comps[who] = made(shared)
            seen[who].append(self.do(comps[who], "iterate", ((0,),)))
            seen[who].append(self.do(comps[who], "execute", ((3,),)))
            alone = made(BUILDS[build]())
            want = [self.do(alone, *ops[ix]) for w, ix in history if w == who]
            want.append(self.do(alone, "iterate", ((0,),)))
            want.append(self.do(alone, "execute", ((3,),)))
            for got, should in zip(seen[who], want):
                expect(got[0] == should[0] and (
                    got[0] != "ok" or same(got[1], should[1])), "result",
                    lambda: f"{build}: in {self.tell(ops, history)} {who} "
                    f"gives {show(got)}, alone it would give {show(should)}")
            expect(self.state(comps[who]) == self.state(alone), "indexes",
                   lambda: f"{build}: after {self.tell(ops, history)} {who} "
                   f"has {self.state(comps[who])}, alone it would have "
                   f"{self.state(alone)}")
        expect(freeze(shared) == before, "arguments",
               lambda: f"{build}: after {self.tell(ops, history)} and "
               f"executing, the mappings they were built from are "
               f"{short(shared)}, were {short(BUILDS[build]())}")
        return repr([s[0] for s in seen]) + repr(
            [short(x[1]) for s in seen for x in s]), True

    @staticmethod
    def tell(ops, history):
        return [(who, ops[ix][0], *map(short, ops[ix][1]))
                for who, ix in history]


def harnesses(tier):
    return [Together()]
