"""T02: generated nested mappings are what was asked for."""
import random

from ..core import CaseHarness
from ..judge import expect, show
from ..loader import load

LEVEL = "exploration"
RULE = ("every path through the tree of random choices (of two letters, lengths "
        "and numbers, and three fractions, of those there are) that "
        "random_nested_dict makes, for every setting of a menu")
ASSUMPTIONS = [
    "random choices are made with the module's RNG",
    "keys are drawn that differ, or (in the harness `repeated`) from two",
]


class Chooser(random.Random):
    """a source of random numbers whose outcomes are decided one by one."""
    prefix, taken, widths = (), [], []

    def pick(self, n):
        i = len(self.taken)
        self.taken.append(self.prefix[i] if i < len(self.prefix) else 0)
        self.widths.append(n)
        return self.taken[-1]

    def random(self):
        return (0.0, 0.5, 0.9999)[self.pick(3)]

    def getrandbits(self, k):
        return (0, 2 ** k - 1)[self.pick(2)]

    def choice(self, seq):
        return seq[self.pick(len(seq))]

    def randint(self, a, b):
        if b - a > 20:
            return (a, b)[self.pick(2)]
        return a + self.pick(min(b - a, 1) + 1)

    def choices(self, population, weights=None, *, cum_weights=None, k=1):
        return [population[self.pick(2)]] * k


def outcomes(chooser, fn, limit):
    stack, count = [[]], 0
    while stack:
        prefix = stack.pop()
        chooser.prefix, chooser.taken, chooser.widths = prefix, [], []
        try:
            yield "ok", fn()
        except Exception as ex:
            yield type(ex).__name__, ex
        count += 1
        if count > limit:
            raise RuntimeError(f"more than {count} outcomes")
        for i in range(len(prefix), len(chooser.taken)):
            for alt in range(1, chooser.widths[i]):
                stack.append(chooser.taken[:i] + [alt])


def leaves(nest, depth=1):
    assert type(nest) is dict, type(nest)
    for key, value in nest.items():
        if isinstance(value, dict):
            yield from leaves(value, depth + 1)
        else:
            yield key, value, depth


def keys_of(nest):
    for key, value in nest.items():
        yield key
        if isinstance(value, dict):
            yield from keys_of(value)


def marker():
    return "value"


KINDS = {
    "str": (str, lambda v: type(v) is str and 1 <= len(v) <= 10),
    "int": (int, lambda v: type(v) is int),
    "float": (float, lambda v: type(v) is float),
    "tuple": (tuple, lambda v: type(v) is tuple and v and all(
        type(x) is float for x in v)),
    "marker": (marker, lambda v: v == "value"),
}


class Nested(CaseHarness):
    """keys that differ."""
    name = "nested"
    repeated = False
    max_violations = 1000
    limit = 400000

    def cases(self, tier):
        deep = 3 if tier == "quick" else 4
        for weight in (0, 0.4, 0.5, 1):
            for depth in range(1, 5):
                for n in range(0, deep + 1):
                    if depth ** n > (64 if tier == "quick" else 256):
                        continue
                    yield n, depth, ("marker",), "drawn", weight
            for kinds in (("int",), ("float", "str"), ("tuple", "marker")):
                yield 1, 3, kinds, "drawn", weight
                yield 2, 2, kinds, "drawn", weight

    def judge(self, case, rep):
        self.paths = 0
        super().judge(case, rep)
        rep.transitions += self.paths

    def run(self, case):
        n, depth, kinds, keys, weight = case
        core = load("test_utils.core")
        chooser = Chooser()
        old, core.RNG = core.RNG, chooser
        counts, seen = {}, set()
        fresh = [0]

        def drawn():
            if self.repeated:
                return "ab"[chooser.pick(2)]
            fresh[0] += 1
            return f"key {fresh[0]}"

        def make():
            fresh[0] = 0
            kwargs = {} if weight == 0.4 else {"branch_weight": weight}
            if keys == "drawn":
                kwargs["keytypes"] = (drawn,)
            return core.random_nested_dict(
                n, depth, tuple(KINDS[k][0] for k in kinds), **kwargs)
        error = None
        try:
            for name, got in outcomes(chooser, make, self.limit):
                self.paths += 1
                if name != "ok":
                    error = name, got, chooser.taken
                    counts[name] = counts.get(name, 0) + 1
                    continue
                seen.add(repr(got))
                self.judge_one(case, got)
        finally:
            core.RNG = old
        if error is not None:
            expect(False, f"{n}-{depth}-{weight}:{'+'.join(sorted(counts))}",
                   f"{case} raised {error[1]!r} for choices {error[2]}")
        return (case, len(seen)), n > 0

    def judge_one(self, case, got):
        n, depth, kinds, keys, _ = case
        try:
            flat = list(leaves(got))
        except AssertionError as ex:
            expect(False, "not-plain", f"{case}: {ex} within {show(got)}")
        expect(len(flat) == n if not self.repeated else
               min(n, 1) <= len(flat) <= n, "count",
               lambda: f"{case} has {len(flat)} values: {got}")
        expect(all(d <= depth for _, _, d in flat), "depth",
               lambda: f"{case} is deeper than {depth}: {got}")
        expect(all(any(KINDS[k][1](v) for k in kinds) for _, v, _ in flat),
               "type", lambda: f"{case} holds other values: {got}")
        if keys == "drawn":
            good = (lambda k: k in ("a", "b")) if self.repeated else (
                lambda k: k.startswith("key "))
        else:
            def good(key):
                return any(KINDS[k][1](key) for k in kinds)
        expect(all(map(good, keys_of(got))), "keys",
               lambda: f"{case} has other keys: {got}")


class Repeated(Nested):
    """keys that may come again."""
    name = "repeated"
    repeated = True

    def cases(self, tier):
        for weight in (0.4, 1):
            for n, depth in ((1, 1), (1, 3), (2, 1), (3, 1), (2, 2), (2, 3)):
                yield n, depth, ("marker",), "drawn", weight


class Typed(Nested):
    """keys of the types of the values."""
    name = "typed"
    repeated = True

    def cases(self, tier):
        for kinds in (("int",), ("str",), ("float",), ("str", "int"),
                      ("tuple",)):
            yield 1, 2, kinds, "typed", 0.4
            yield 2, 1, kinds, "typed", 0.4


def harnesses(tier):
    return [Nested(), Repeated(), Typed()]
