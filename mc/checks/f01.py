"""F01: functional helpers agree with their definitions."""
import collections
import itertools
import operator

from ..core import CaseHarness
from ..judge import ARRAY, attempt, expect, same, show
from ..loader import load

LEVEL = "exploration"
RULE = ("every helper on every small collection and argument list of finite "
        "menus, counting the calls of the functions they wrap; non-trivial: "
        "there are arguments")
ASSUMPTIONS = [
    "are_in is given at least one item, intersection at least one iterable",
]


def subsets(alphabet, size):
    for n in range(size + 1):
        yield from itertools.product(alphabet, repeat=n)


KINDS = {"list": list, "tuple": tuple, "deque": collections.deque,
         "iter": iter, "gen": lambda x: (i for i in x),
         "set": lambda x: set(x), "keys": lambda x: dict.fromkeys(x).keys()}


class Membership(CaseHarness):
    """are_in"""
    name = "are_in"

    def cases(self, tier):
        n = 3 if tier == "quick" else 5
        for items in subsets((1, "a", None), n):
            if items:
                for held in subsets((1, "a", None), n):
                    yield items, held

    def run(self, case):
        items, held = case
        fun = load("func")
        ops = {"default": ((), all), "and": ((operator.and_,), all),
               "or": ((operator.or_,), any)}
        out = []
        for name, (args, ref) in ops.items():
            for kind in ("list", "tuple", "set", "deque", "dict"):
                box = dict.fromkeys(held) if kind == "dict" \
                    else KINDS[kind](held)
                for given in (list(items), items):
                    test = attempt(fun.are_in, given, *args)
                    expect(test[0] == "ok", "are_in", show(test))
                    want = ref(i in box for i in items)
                    for _ in range(2):
                        got = attempt(test[1], box)
                        expect(got[0] == "ok" and bool(got[1]) is want,
                               f"are_in-{name}",
                               f"are_in({given}, {name})({box!r}): "
                               f"{show(got)}, should be {want}")
                    out.append(want)
        return out, bool(held)


class Odd:
    """can tell what is in it, and nothing else"""

    def __init__(self, *held):
        self.held = held

    def __contains__(self, item):
        return item in self.held

    def __repr__(self):
        return f"Odd{self.held}"


NAN = float("nan")


class Containers(CaseHarness):
    """are_in asks each container itself"""
    name = "containers"
    BOXES = ["xaby", "ab", "", "ba", b"ab", range(4), range(2, 9, 3), [[1]],
             [[1], "ab"], {"ab": 1}, {1, True}, {1.0}, [True], Odd(1, "ab"),
             Odd(), (NAN,), [None], {None: 0}, {(1, 2)}, [(1, 2)],
             collections.deque(["a", [1]]), {"a": 1}.values(),
             {"a": 1}.items(), collections.Counter("ab")]
    ITEMS = ["a", "b", "ab", "", 1, 2, True, 97, [1], NAN, None, (1, 2),
             ("a", 1), 1.0, b"a"]

    def cases(self, tier):
        n = 2 if tier == "quick" else 3
        for items in subsets(range(len(self.ITEMS)), n):
            if items:
                for box in range(len(self.BOXES)):
                    yield items, box

    def run(self, case):
        items, box = [self.ITEMS[i] for i in case[0]], self.BOXES[case[1]]
        fun = load("func")
        out = []
        answers = [attempt(operator.contains, box, i) for i in items]
        for name, args, ref in (("default", (), all),
                                ("and", (operator.and_,), all),
                                ("or", (operator.or_,), any),
                                ("xor", (operator.xor,),
                                 lambda x: sum(x) % 2 == 1)):
            got = attempt(lambda: fun.are_in(items, *args)(box))
            out.append(got[0])
            if all(a[0] == "ok" for a in answers):
                want = ref([a[1] for a in answers])
                expect(got[0] == "ok" and bool(got[1]) is want,
                       f"are_in-{name}",
                       f"are_in({items!r}, {name})({box!r}): {show(got)}, "
                       f"should be {want}")
            elif len(items) == 1:
                expect(got[0] != "ok", f"are_in-{name}",
                       f"are_in({items!r}, {name})({box!r}): {show(got)}")
        if all(isinstance(i, str) and len(i) == 1 for i in items):
            text = "".join(items)
            got = attempt(lambda: fun.are_in(text)(box))
            if all(a[0] == "ok" for a in answers):
                want = all(a[1] for a in answers)
                expect(got[0] == "ok" and bool(got[1]) is want, "are_in",
                       f"are_in({text!r})({box!r}): {show(got)}")
        return case, True


class Sets(CaseHarness):
    """intersection and disjoint"""
    name = "sets"

    def cases(self, tier):
        n = 3 if tier == "quick" else 4
        small = list(subsets((1, 2, "a"), n))
        for one in small:
            yield (one,)
        for two in itertools.product(small, small):
            yield two
        few = list(subsets((1, 2), n))
        for three in itertools.product(few, few, few):
            yield three

    def run(self, case):
        fun = load("func")
        common = set(case[0])
        for c in case[1:]:
            common &= set(c)
        kinds = ("list", "tuple", "set", "deque")
        for kind in kinds + ("iter", "gen", "keys"):
            given = [KINDS[kind](c) for c in case]
            got = attempt(fun.intersection, *given)
            expect(got[0] == "ok" and type(got[1]) is set
                   and got[1] == common, "intersection",
                   f"intersection{case}: {show(got)}, should be {common}")
            given = [KINDS[kind](c) for c in case]
            got = attempt(fun.disjoint, *given)
            # sets may have an order of their own
            want = [[x for x in KINDS[kind](c) if x not in common]
                    for c in case]
            expect(got[0] == "ok" and same(list(map(list, got[1])), want),
                   "disjoint", f"disjoint{case}: {show(got)}, should be "
                               f"{want}")
            if kind in kinds:
                expect([list(g) for g in given] == [list(KINDS[kind](c))
                                                    for c in case], "changed",
                       f"disjoint changed {case}")
        return sorted(map(repr, common)), len(case) > 1


class Recorder:
    """a function that records its calls"""

    def __init__(self, result=None, name="recorded"):
        self.calls, self.result = [], result
        self.__name__ = name

    def __call__(self, *args, **kwargs):
        self.calls.append((args, kwargs))
        if isinstance(self.result, Exception):
            raise self.result
        return ("called", args, kwargs) if self.result is None \
            else self.result


ARG_LISTS = [(), (1,), (None,), ((1, 2),), ([],), ("ab",), (1, 2),
             ((1, 2, 3),), (1, [2], 3), ({"k": 1},), (0, 0, 0, 0),
             (ARRAY,), ((ARRAY, 1),), (ARRAY, ARRAY)]
KWARG_LISTS = [{}, {"k": 1}, {"func": 2, "x": None}, {"a": 0, "b": []}, {"a": ARRAY}]


class Wrappers(CaseHarness):
    """everything that wraps or calls a function"""
    name = "wrappers"

    def cases(self, tier):
        for a in range(len(ARG_LISTS)):
            for k in range(len(KWARG_LISTS)):
                for fails in (False, True):
                    yield a, k, fails

    def call(self, what, fn, rec, calls, want, *args, **kwargs):
        """it calls rec with exactly `calls` and gives `want`."""
        rec.calls.clear()
        got = attempt(fn, *args, **kwargs)
        if isinstance(rec.result, Exception) and calls:
            ok = got[0] != "ok" and got[1] is rec.result
        else:
            ok = got[0] == "ok" and (got[1] is want or same(got[1], want))
        expect(ok, what, f"{what} with {args} {kwargs}: {show(got)}, should "
                         f"be {want!r} / {rec.result!r}")
        expect(same(rec.calls, calls), what,
               f"{what} with {args} {kwargs} made calls {rec.calls}, should "
               f"be {calls}")

    def run(self, case):
        a, k, fails = case
        args, kwargs = ARG_LISTS[a], KWARG_LISTS[k]
        fun = load("func")
        boom = ValueError("boom") if fails else None
        rec = Recorder(boom)
        if "func" not in kwargs:
            self.call("pass_parameters", fun.pass_parameters, rec,
                      [(args, kwargs)], ("called", args, kwargs), rec,
                      *args, **kwargs)
        for interactive in (False, None, 0, ""):
            if "func" in kwargs:
                break
            self.call("catch_interaction", fun.catch_interaction, rec,
                      [(args, kwargs)], ("called", args, kwargs),
                      interactive, rec, *args, **kwargs)
            self.call("catch_interaction", fun.catch_interaction, rec,
                      [(args, kwargs)], ("called", args, kwargs),
                      interactive, rec, *args, _default=3, **kwargs)
        for non in (True, 1, "yes", [0]):
            if "func" in kwargs:
                break
            self.call("catch_interaction", fun.catch_interaction, rec, [],
                      "", non, rec, *args, **kwargs)
            self.call("catch_interaction", fun.catch_interaction, rec, [],
                      9, non, rec, *args, _default=9, **kwargs)
            self.call("catch_interaction", fun.catch_interaction, rec, [],
                      None, non, rec, *args, _default=None, **kwargs)
        got = attempt(fun.zero, *args, **kwargs)
        expect(got == ("ok", None), "zero", f"zero: {show(got)}")
        for value in (None, 0, [1], ARRAY):
            const = fun.constant(value)
            for _ in range(2):
                got = attempt(const, *args, **kwargs)
                expect(got[0] == "ok" and got[1] is value, "constant",
                       f"constant({value})({args}): {show(got)}")
        # triggers call without arguments and pass their own on
        trigger = fun.triggerize(rec)
        expect(trigger.__name__ == "recorded", "triggerize",
               f"a trigger is named {trigger.__name__}")
        if len(args) <= 1:
            state = args[0] if args else None
            self.call("triggerize", trigger, rec, [((), {})], state, *args)
        # splat spreads a sequence
        splatted = fun.splat(rec)
        for kind in (tuple, list, collections.deque, iter):
            self.call("splat", splatted, rec, [(args, {})],
                      ("called", args, {}), kind(args))
        expect(splatted.__name__ == "recorded", "splat",
               f"a splat is named {splatted.__name__}")
        # argstop cuts arguments
        for count in range(4):
            for unpack in (True, False, None):
                given = args
                if len(args) == 1 and unpack is not False:
                    given = args[0]
                    if not isinstance(given, (tuple, list, str)):
                        continue
                opts = {} if unpack is None else {"unpack": unpack}
                want = tuple(given[:count])
                self.call("argstop", fun.argstop(rec, count, **opts), rec,
                          [(want, kwargs)], ("called", want, kwargs),
                          *args, **kwargs)
        stop = fun.argstop(rec)
        if len(args) != 1:
            self.call("argstop", stop, rec, [((), kwargs)],
                      ("called", (), kwargs), *args, **kwargs)
        return repr((args, kwargs, fails)), bool(args or kwargs)


RESULTS = [0, False, "", [], {}, (), ARRAY, float("nan"), StopIteration,
           ..., [0], "x"]


class Results(CaseHarness):
    """what a wrapped function returns is what its wrapper returns"""
    name = "results"

    def cases(self, tier):
        for r in range(len(RESULTS)):
            for a in range(len(ARG_LISTS)):
                for d in range(len(RESULTS)):
                    yield r, a, d

    def run(self, case):
        result, args, default = RESULTS[case[0]], ARG_LISTS[case[1]], \
            RESULTS[case[2]]
        fun = load("func")
        rec = Recorder(result)

        def once(what, fn, calls, want, *a, **k):
            rec.calls.clear()
            got = attempt(fn, *a, **k)
            expect(got[0] == "ok" and got[1] is want
                   and same(rec.calls, calls), what,
                   lambda: f"{what} of a function that returns {result!r}, "
                   f"with {a} {k}: {show(got)}, should be {want!r}; calls "
                   f"{rec.calls}, should be {calls}")
        once("pass_parameters", fun.pass_parameters, [(args, {})], result,
             rec, *args)
        for non in (False, None, 0, ""):
            once("catch_interaction", fun.catch_interaction, [(args, {})],
                 result, non, rec, *args, _default=default)
            once("catch_interaction", fun.catch_interaction, [(args, {})],
                 result, non, rec, *args)
        once("catch_interaction", fun.catch_interaction, [], default, True,
             rec, *args, _default=default)
        once("splat", fun.splat(rec), [(args, {})], result, args)
        once("argstop", fun.argstop(rec, 2, unpack=False),
             [(args[:2], {})], result, *args)
        once("triggerize", fun.triggerize(rec), [((), {})], default, default)
        return case, True


class Mapping(CaseHarness):
    """gmap, filtern, is_it, naturals"""
    name = "mapping"

    def cases(self, tier):
        n = 4 if tier == "quick" else 6
        for items in subsets((0, 1, "a"), n):
            yield items

    def run(self, case):
        fun = load("func")
        for kind in ("list", "tuple", "iter", "gen"):
            rec = Recorder()
            got = attempt(fun.gmap, rec, KINDS[kind](case))
            want = tuple(("called", (x,), {}) for x in case)
            expect(got[0] == "ok" and same(got[1], want)
                   and same(rec.calls, [((x,), {}) for x in case]), "gmap",
                   f"gmap over {case}: {show(got)}, calls {rec.calls}")
            rec = Recorder()
            got = attempt(fun.gmap, rec, KINDS[kind](case), case[:2],
                          evaluator=list)
            want = [("called", pair, {}) for pair in zip(case, case[:2])]
            expect(got[0] == "ok" and same(got[1], want), "gmap",
                   f"gmap over two: {show(got)}, should be {want}")
            got = attempt(fun.gmap, lambda x: x == 1, KINDS[kind](case),
                          mapper=filter)
            want = tuple(x for x in case if x == 1)
            expect(got[0] == "ok" and same(got[1], want), "gmap",
                   f"gmap by filter: {show(got)}, should be {want}")
            got = attempt(fun.gmap, str, KINDS[kind](case),
                          evaluator="".join)
            expect(got == ("ok", "".join(map(str, case))), "gmap",
                   f"gmap joined: {show(got)}")
            for target in (0, 1, "a"):
                tried = []

                def pred(x):
                    tried.append(x)
                    return x == target
                got = attempt(fun.filtern, pred, KINDS[kind](case))
                if target in case:
                    expect(got[0] == "ok" and got[1] == target, "filtern",
                           f"filtern {target!r} in {case}: {show(got)}")
                    expect(tried == list(case[:case.index(target) + 1]),
                           "filtern", f"filtern tried {tried} of {case}")
                else:
                    expect(got[0] == "StopIteration", "filtern",
                           f"filtern {target!r} in {case}: {show(got)}")
        nat = fun.naturals()
        want = list(range(1, len(case) * 7 + 2))
        got = list(itertools.islice(nat, len(want)))
        expect(got == want, "naturals", f"naturals are {got}")
        other = fun.naturals()
        expect(next(other) == 1 and next(nat) == want[-1] + 1, "naturals",
               "two naturals are not independent")
        for types in ((int,), (str,), (int, str), (), (bool, float)):
            test = fun.is_it(*types)
            for x in case + (None, True, 1.5, [], "z"):
                got = attempt(test, x)
                expect(got == ("ok", isinstance(x, types)), "is_it",
                       f"is_it{types}({x!r}): {show(got)}")
        return case, bool(case)


class Endless:
    """goes on for longer than anybody should ask it"""

    def __init__(self, start=0):
        self.at = start
        self.stop = start + 1000

    def __iter__(self):
        return self

    def __next__(self):
        if self.at >= self.stop:
            raise RuntimeError("asked for too many items")
        self.at += 1
        return self.at - 1


class Lazy(CaseHarness):
    """iterables that don't end; what is left of them is that of map()."""
    name = "endless"

    def cases(self, tier):
        n = 4 if tier == "quick" else 6
        for items in subsets((0, 1, "a"), n):
            for where in range(3):
                yield items, where

    def run(self, case):
        items, where = case
        fun = load("func")
        iterables = [list(items), list(items)]
        iterables.insert(where, Endless())
        want_left = len(items) + (where == 0)
        got = attempt(fun.gmap, lambda *args: args, *iterables)
        pairs = list(zip(items, items))
        want = tuple((*p[:where], i, *p[where:]) for i, p in enumerate(pairs))
        expect(got[0] == "ok" and same(got[1], want), "gmap",
               f"gmap beside an endless iterable at {where}: {show(got)}")
        expect(iterables[where].at == want_left, "left",
               f"gmap took {iterables[where].at} of its items")
        first = Endless()
        got = attempt(fun.gmap, lambda x: x, first, evaluator=next)
        expect(got == ("ok", 0) and first.at == 1, "gmap",
               f"gmap by next: {show(got)}, took {first.at}")
        found = Endless()
        got = attempt(fun.filtern, lambda x: x >= len(items), found)
        expect(got == ("ok", len(items)) and found.at == len(items) + 1,
               "filtern", f"filtern: {show(got)}, took {found.at} items")
        return case, bool(items)


def harnesses(tier):
    return [Membership(), Containers(), Sets(), Wrappers(), Results(), Mapping(), Lazy()]
