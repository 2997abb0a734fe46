"""S06: a HashDict returns, per key, an equivalent of the last value."""
import itertools

from ..core import CaseHarness, SeqHarness
from ..loader import load
from ..judge import ARRAY, OTHER_ARRAY, attempt, expect, show

LEVEL = "model_checking"
RULE = ("every history of assignments (and refused ones) of 5 values to 3 "
        "keys up to the stated depth, for several equivalences, against two "
        "dicts; every key looked up after each; also with objects that change "
        "after they were assigned")
ASSUMPTIONS = ["an object that changes stays in the class it had when it was assigned"]


class Thing:
    """equal ones hash alike, but are other objects"""

    def __init__(self, n):
        self.n = n

    def __eq__(self, other):
        return isinstance(other, Thing) and self.n == other.n

    def __hash__(self):
        return hash(self.n)

    def __repr__(self):
        return f"Thing({self.n})"


THINGS = [Thing(1), Thing(1), Thing(2), "ab", "cd", 3, [1, 2], [1, 2], None,
          ARRAY, OTHER_ARRAY]
WAYS = {
    "hash": (None, lambda x: hash(x), [0, 1, 2, 3, 6]),
    "len": (len, len, [3, 4, 6, 7, 0]),
    "type": (type, type, [0, 2, 3, 9, 10]),
    "repr": (repr, repr, [0, 1, 2, 6, 7]),
    "none": (lambda x: None, lambda x: None, [0, 3, 5, 7, 8]),
    "identity": (id, id, [0, 1, 6, 8, 9]),
    "arrays": (repr, repr, [6, 7, 8, 9, 10]),
}
KEYS = ("k", 1, None)


class Histories(SeqHarness):
    name = "assignments"
    direct = True

    def depth(self, tier):
        return 6 if tier == "quick" else 8

    def ops(self, tier):
        return [("new", w) for w in WAYS] + [
            ("set", k, v) for k in KEYS for v in range(5)] + [
            ("bad-key", 0)]

    def world(self):
        class World:
            real = None
        return World()

    def enabled(self, w, op):
        return (op[0] == "new") == (w.real is None)

    def step(self, w, op):
        cls = load("structures").HashDict
        if op[0] == "new":
            made, w.equiv, w.values = WAYS[op[1]]
            w.way = op[1]
            w.real = cls() if made is None else cls(made)
            w.model, w.first, w.refused = {}, {}, {}
            return
        if op[0] == "bad-key":
            got = attempt(w.real.__setitem__, [], THINGS[w.values[op[1]]])
            expect(got[0] == "TypeError", "bad-key",
                   f"a list as key: {show(got)}")
            # the refused value may count as the first seen of its class
            value = THINGS[w.values[op[1]]]
            klass = w.equiv(value)
            if klass not in w.first:
                w.refused[klass] = value
            return
        value = THINGS[w.values[op[2]]]
        klass = attempt(w.equiv, value)
        got = attempt(w.real.__setitem__, op[1], value)
        if klass[0] != "ok":
            expect(got[0] == klass[0], "refused",
                   f"{op}: {show(got)}, should raise {klass[0]}")
            return
        expect(got[0] == "ok", "set", f"{op}: {show(got)}")
        w.first.setdefault(klass[1], value)
        w.model[op[1]] = klass[1]

    def audit(self, w):
        if w.real is None:
            return
        out = []
        for k in KEYS + ("never", ):
            got = attempt(lambda: w.real[k])
            if k not in w.model:
                expect(got[0] == "KeyError", "missing",
                       f"[{k!r}] is {show(got)}, should be KeyError")
                continue
            want = w.first[w.model[k]]
            if w.model[k] in w.refused and got[0] == "ok" and (
                    got[1] is w.refused[w.model[k]]):
                want = got[1]
            expect(got[0] == "ok" and got[1] is want, "value",
                   f"[{k!r}] with {w.way} is {show(got)}, should be the "
                   f"first {want!r} of its class")
            out.append((k, repr(want)))
        text = attempt(lambda: (str(w.real), repr(w.real)))
        expect(text[0] == "ok", "str", f"str() failed: {show(text)}")
        stored = getattr(w.real, "reverse", ())
        classes = {*w.first, *w.refused}
        expect(len(stored) <= len(classes), "stored",
               f"{len(stored)} objects are stored for "
               f"{len(classes)} classes")
        w.outcome = out

    def canon(self, w):
        return w.way, sorted(map(repr, w.model.items())), [
            [i for i, t in enumerate(THINGS) if t is v]
            for v in w.first.values()], list(map(repr, w.model)), sorted(
                map(repr, w.refused))


class Growing(CaseHarness):
    """the class of an object is what it was when the object was assigned."""
    name = "growing"
    OPS = [("set", k, n) for k in "ab" for n in (0, 1)] + [
        ("grow", 0), ("grow", 1), ("look",)]

    def cases(self, tier):
        for way in ("len", "repr", "type"):
            for n in range(1, 6 if tier == "quick" else 7):
                for ops in itertools.product(self.OPS, repeat=n):
                    if ops[0][0] == "set":
                        yield way, ops

    def run(self, case):
        way, ops = case
        equiv = {"len": len, "repr": repr, "type": type}[way]
        things = [[1], [2]]
        real, model, first = load("structures").HashDict(equiv), {}, {}
        for op in ops + (("look",),):
            if op[0] == "set":
                real[op[1]] = things[op[2]]
                model[op[1]] = equiv(things[op[2]])
                first.setdefault(model[op[1]], things[op[2]])
            elif op[0] == "grow":
                things[op[1]].append(3)
            else:
                for k in "ab":
                    got = attempt(lambda: real[k])
                    ok = got[0] == "KeyError" if k not in model else (
                        got[0] == "ok" and got[1] is first[model[k]])
                    expect(ok, "value", lambda: f"{case}: [{k!r}] is "
                           f"{show(got)}, should be "
                           f"{first[model[k]] if k in model else KeyError}")
        return [(k, things.index(first[c])) for k, c in model.items()], True


def harnesses(tier):
    return [Histories(), Growing()]
