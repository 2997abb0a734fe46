"""M02: sends deliver every intermediate result to their targets."""
import io
import itertools
from collections import Counter, OrderedDict, defaultdict

from ..core import CaseHarness, SeqHarness
from ..loader import load
from ..judge import attempt, dump, expect, same, show

LEVEL = "model_checking"
RULE = ("every history of adding sends and captures (pipe x target kind x "
        "pointer, to every step), steps and inserts, and executing, up to the "
        "stated depth; the order of all step, pipe and stream calls and the "
        "contents of all targets at each of them are compared with a "
        "reference interpreter; plus every pair of sends given to the "
        "constructor in every notation")
ASSUMPTIONS = [
    "pipes and streams return and do not touch the Composition",
    "list pointers are valid positions",
]


class Bench:
    """steps, pipes and targets that log what happens to them."""

    def __init__(self):
        self.log = []
        self.targets = {"L": [], "L2": ["x", "y"], "D": {}, "D2": {"k": 0}}
        bench = self

        class Stream:
            def write(self, thing):
                bench.note("write", thing)
        self.targets["S"] = Stream()
        self.targets["IO"] = io.StringIO()

    def seen(self):
        t = self.targets
        return (tuple(t["L"]), tuple(t["L2"]), tuple(t["D"].items()),
                tuple(t["D2"].items()), t["IO"].getvalue())

    def note(self, *what):
        self.log.append(what + (self.seen(),))

    def call(self, name, args, kwargs):
        self.note("step", name, tuple(args), tuple(sorted(kwargs.items())))
        if name == "z":
            return None
        return name, tuple(args), tuple(sorted(kwargs.items()))

    def step(self, name):
        def fn(*args, **kwargs):
            return self.call(name, args, kwargs)
        fn.__name__ = f"do_{name}"
        return fn

    def pipe(self, name):
        if name is None:
            return None

        def fn(state):
            self.note("pipe", name, state)
            return {"P": ("P", state), "T": str(state),
                    "N": None}[name]
        return fn

    def target(self, name):
        return self.targets.get(name, name)


class Reference:
    """what a Composition should do, on its own bench."""

    def __init__(self, names):
        self.bench = Bench()
        self.steps = {n: n for n in names}
        self.sends = {}
        self.inserts = {}
        self.captures = None

    def execute(self, signal):
        for name, fn in list(self.steps.items()):
            insert = self.inserts.get(name, {})
            at = {k: v for k, v in insert.items() if isinstance(k, int)}
            kwargs = {k: v for k, v in insert.items() if isinstance(k, str)}
            at[next(i for i in itertools.count() if i not in at)] = signal
            signal = self.bench.call(fn, [at[k] for k in sorted(at)], kwargs)
            for pipe, target, pointer in self.sends.get(name, ()):
                out = signal
                if pipe is not None:
                    out = self.bench.pipe(pipe)(signal)
                if target is None:
                    continue
                if isinstance(target, list):
                    target[0] = out
                elif target in ("L", "L2"):
                    here = self.bench.targets[target]
                    if pointer is None:
                        here.append(out)
                    else:
                        here[pointer] = out
                elif target in ("D", "D2"):
                    self.bench.targets[target][pointer] = out
                elif target in ("S", "IO"):
                    self.bench.targets[target].write(out)
                else:
                    self.inserts.setdefault(target, {})[pointer] = out
        return signal


SENDS = [
    ("P", None, None), (None, "L", None), ("P", "L2", 0), (None, "L2", -1),
    (None, "D", "k"), ("P", "D2", None), (None, "S", None), ("T", "IO", None),
    ("P", "S", 3), (None, "L2", 1), ("N", "L", None),
]


def same_bench(real, ref):
    return same(real.log, ref.log) and same(real.seen(), ref.seen())


def differ(real, ref):
    for i, (one, two) in enumerate(itertools.zip_longest(real.log, ref.log)):
        if not same(one, two):
            return f"event {i} is {one}, should be {two}"
    return f"targets hold {real.seen()}, should hold {ref.seen()}"


def run_both(w, signal, what):
    want = w.ref.execute(signal)
    got = attempt(w.comp.execute, signal)
    expect(got[0] == "ok" and same(got[1], want), "result",
           f"{what} returned {show(got)}, should be {want!r}")
    if not same_bench(w.bench, w.ref.bench):
        expect(False, "delivery", f"{what}: {differ(w.bench, w.ref.bench)}")
    if w.ref.captures is not None:
        caps = w.comp.captures
        expect(isinstance(caps, dict) and same(
            {k: list(v) for k, v in caps.items()}, w.ref.captures), "captures",
            f"{what}: captures are {caps!r}, should be {w.ref.captures!r}")
    for mine, ref in w.own:
        expect(same(mine, ref), "captures",
               f"{what}: a capture holds {mine}, should hold {ref}")
    return want


def add(w, step, send):
    pipe, target, pointer = send
    w.ref.sends.setdefault(step, []).append(send)
    return (w.bench.pipe(pipe),
            None if target is None else w.bench.target(target), pointer)


class Histories(SeqHarness):
    """every history of configuring sends and executing."""
    name = "histories"
    direct = True
    NAMES = {"map": ("a", "b", "z"), "list": (0, 1, 2)}

    def depth(self, tier):
        return 4 if tier == "quick" else 5

    def ops(self, tier):
        ops = [("new", "map"), ("new", "list")]
        sends = SENDS[:5] + SENDS[6:8]
        for step in (0, 1):
            ops += [("send", step) + s for s in sends]
            # into the inserts of an earlier step, itself, a later, a new one
            ops += [("send", step, p, target, ptr) for p, target, ptr in (
                (None, 0, "k"), ("P", 2, 0), (None, 2, "k"), ("P", 1, "k"))]
        ops += [("send", 2, None, "L", None), ("send", 2, None, 0, 1),
                ("send", "new", "P", "L", None)]
        ops += [("capture", 0), ("capture", 2), ("captures",),
                ("step", "new"), ("step", 0), ("insert", 1), ("exec",)]
        return ops

    def world(self):
        class World:
            comp = None
        return World()

    def enabled(self, w, op):
        return (op[0] == "new") == (w.comp is None)

    def step_name(self, w, ix):
        return w.names[ix] if isinstance(ix, int) else ix

    def step(self, w, op):
        w.outcome = None
        if op[0] == "new":
            w.names = self.NAMES[op[1]]
            w.bench, w.ref, w.own = Bench(), Reference(w.names), []
            steps = {n: w.bench.step(n) for n in w.names}
            if op[1] == "list":
                steps = list(steps.values())
            w.comp = load("composition").Composition(steps)
            return
        c = w.comp
        if op[0] == "send":
            name = self.step_name(w, op[1])
            pipe, target, pointer = op[2:]
            if isinstance(target, int):
                target = self.step_name(w, target)
            made = add(w, name, (pipe, target, pointer))
            kwargs = dict(zip(("pipe", "target", "pointer"), made))
            if kwargs["pointer"] is None:
                del kwargs["pointer"]
            got = attempt(c.add_send, name, **kwargs)
        elif op[0] == "capture":
            name = self.step_name(w, op[1])
            mine, ref = [None], [None]
            w.own.append((mine, ref))
            w.ref.sends.setdefault(name, []).append((None, ref, 0))
            got = attempt(c.add_capture, name, mine)
        elif op[0] == "captures":
            w.ref.captures = {n: [None] for n in w.ref.steps}
            for n, cap in w.ref.captures.items():
                w.ref.sends.setdefault(n, []).append((None, cap, 0))
            got = attempt(c.add_captures)
        elif op[0] == "step":
            name = self.step_name(w, op[1])
            w.ref.steps[name] = "q"
            got = attempt(c.add_step, w.bench.step("q"), name)
        elif op[0] == "insert":
            name = self.step_name(w, op[1])
            w.ref.inserts.setdefault(name, {})["k"] = "by hand"
            got = attempt(c.add_insert, name, "k", "by hand")
        elif op[0] == "exec":
            w.outcome = run_both(w, "s0", "execute")
            return
        expect(got[0] == "ok", op[0], f"{op} failed: {show(got)}")
        expect(same_bench(w.bench, w.ref.bench), "premature",
               f"{op}: {differ(w.bench, w.ref.bench)}")

    def audit(self, w):
        run_both(w, "s1", "first execution")
        w.outcome = run_both(w, "s2", "second execution")
        got = attempt(lambda: list(w.comp.itercall("s3")))
        want = w.ref.execute("s3")
        expect(got[0] == "ok" and same(got[1][-1], want) and
               same_bench(w.bench, w.ref.bench), "iteration",
               f"iterating: {show(got)}, {differ(w.bench, w.ref.bench)}")
        expect(set(w.comp.send_index) >= {k for k, v in w.ref.sends.items()
                                          if v}, "send_index",
               f"send_index is {w.comp.send_index}")

    def canon(self, w):
        return (dump(vars(w.comp)), w.names, repr(w.ref.sends),
                repr(w.ref.inserts), repr(w.ref.steps), w.ref.bench.seen())


class Constructed(CaseHarness):
    """sends given to the constructor, in every notation."""
    name = "constructed"

    def cases(self, tier):
        all_sends = SENDS + [(None, 0, "k"), ("P", 2, 1), (None, 1, "k")]
        ix = range(len(all_sends))
        forms = ("lists", "tuples", "map", "later", "tracked")
        for form in forms:
            for one in ix:
                for step in range(3):
                    yield form, ((step, one),), all_sends[one]
            for one, two in itertools.product(ix, ix):
                for s1, s2 in ((0, 0), (0, 2), (2, 1)):
                    yield form, ((s1, one), (s2, two)), None
        if tier == "thorough":
            for form in forms:
                for trio in itertools.product(ix, repeat=3):
                    for steps in itertools.product(range(3), repeat=3):
                        yield form, tuple(zip(steps, trio)), None

    def run(self, case):
        form, chosen, _ = case
        all_sends = SENDS + [(None, 0, "k"), ("P", 2, 1), (None, 1, "k")]

        class World:
            pass
        w = World()
        names = (0, 1, 2) if form in ("lists", "tuples") else ("", "b", "z")
        w.bench, w.ref, w.own = Bench(), Reference(names), []
        steps = {n: w.bench.step(n) for n in names}
        given = {n: [] for n in names}
        for ix, s in chosen:
            pipe, target, pointer = all_sends[s]
            if isinstance(target, int):
                target = names[target]
            given[names[ix]].append(
                add(w, names[ix], (pipe, target, pointer)))
        if form in ("lists", "tuples"):
            kind = list if form == "lists" else tuple
            steps = kind(steps.values())
            given = kind(kind(v) if v else None for v in given.values())
        kwargs = {}
        if form == "tracked":
            kwargs["tracker"] = load("tracker").TrivialTracker()
        cls = load("composition").Composition
        if form == "later":
            w.comp = cls(steps)
            for n, sends in given.items():
                for s in sends:
                    w.comp.add_send(n, *s)
        else:
            w.comp = cls(steps, sends=given, **kwargs)
        run_both(w, "s1", "first execution")
        run_both(w, None, "second execution")
        return w.ref.bench.log, True


class MyList(list):
    def write(self, thing):
        raise AssertionError("a list is no stream")


class MyDict(dict):
    def write(self, thing):
        raise AssertionError("a dict is no stream")


class Name(str):
    pass


class Number(int):
    pass


class Kept:
    """a stream in its own right, or by what it inherits or holds."""
    def __init__(self):
        self.kept = []

    def write(self, thing):
        self.kept.append(thing)

    def __eq__(self, other):
        return type(self) is type(other) and same(self.kept, other.kept)

    def __repr__(self):
        return f"{type(self).__name__}({self.kept})"


class Heir(Kept):
    pass


class Held(Kept):
    write = None

    def __init__(self):
        super().__init__()
        self.write = self.kept.append


class Plain:
    """only the object has it, not its class"""
    def __init__(self):
        self.kept = []
        self.write = self.kept.append

    __eq__, __repr__ = Kept.__eq__, Kept.__repr__


class Many(Kept):
    """a stream that has what lists and mappings have too"""
    def append(self, thing):
        raise AssertionError("it is a stream")

    extend = insert = update = __setitem__ = setdefault = add = put = append
    send = writelines = __call__ = append

    def __len__(self):
        return len(self.kept)

    def __iter__(self):
        return iter(self.kept)

    def __getitem__(self, i):
        return self.kept[i]


class Kinds(CaseHarness):
    """targets of subclasses of the kinds a send knows."""
    name = "kinds of target"

    TARGETS = {
        "ordered": (lambda: OrderedDict(a=1), ("a", "k", 0, None)),
        "default": (lambda: defaultdict(list, k=[1]), ("k", "", ())),
        "counter": (lambda: Counter("aab"), ("a", "z")),
        "mydict": (lambda: MyDict(k=1), ("k", "n")),
        "nesting": (lambda: load("structures").NestingDict(), ("k", 1)),
        "mylist": (lambda: MyList([1, 2]), (None, 0, -1)),
        "list": (lambda: [], (None,)),
        "pair": (lambda: [0, 1], (None, 0, 1, -1, True, False,
                                  Number(1))),
        "slice": (lambda: [0, 1, 2], (slice(0, 1), slice(1, None))),
        "dict": (lambda: {}, ("k", 0, "", None, 1.5, (), True)),
        "stream": (Kept, (None, 0, "k")),
        "heir": (Heir, (None,)),
        "held": (Held, (None,)),
        "plain": (Plain, (None, "k")),
        "many": (Many, (None, 0, "k")),
    }
    NAMED = {"name": (Name("b"), "bbb"), "number": (Number(1), 4)}

    def cases(self, tier):
        for kind, (_, pointers) in self.TARGETS.items():
            for i in range(len(pointers)):
                for step in range(3):
                    for piped in (False, True):
                        for given in ("sends", "add"):
                            yield kind, i, step, piped, given
        for kind in self.NAMED:
            for pointer in ("k", Name("k"), 0, Number(0)):
                yield kind, pointer, 0, False, "add"

    def run(self, case):
        kind, pointer, at, piped, how = case
        cls = load("composition").Composition
        results = []

        def step(i):
            def fn(state, *args, **kwargs):
                results.append([i, state, args, kwargs])
                return [i, state]
            return fn

        def pipe(state):
            return ["piped", state]

        if kind in self.NAMED:
            target = self.NAMED[kind][0]
            names = ["a", "b", "c"] if kind == "name" else [0, 1, 2]
            comp = cls({n: step(n) for n in names})
            comp.add_send(names[0], target=target, pointer=pointer)
            got = attempt(comp.execute, "s")
            want = [[names[0], "s", (), {}]]
            first = [names[0], "s"]
            if isinstance(pointer, str):
                want.append([names[1], first, (), {"k": first}])
            else:
                want.append([names[1], first, (first,), {}])
            want.append([names[2], [names[1], first], (), {}])
            expect(got[0] == "ok" and same(results, want), f"insert:{kind}",
                   f"{case}: {show(got)}; calls {results}, should be {want}")
            return str(results), True
        make, pointers = self.TARGETS[kind]
        pointer = pointers[pointer]
        target, ref = make(), make()
        send = (pipe if piped else None, target, pointer)
        steps = {n: step(n) for n in "abc"}
        name = "abc"[at]
        if how == "sends":
            comp = cls(steps, sends={name: [send]})
        else:
            comp = cls(steps)
            comp.add_send(name, *send)
        for signal in ("one", ["two"]):
            got = attempt(comp.execute, signal)
            thing = signal
            for n in "abc":
                thing = [n, thing]
                if n == name:
                    out = ["piped", thing] if piped else thing
            expect(got[0] == "ok" and same(got[1], thing), f"result:{kind}",
                   f"{case} returned {show(got)}, should be {thing}")
            if isinstance(ref, (Kept, Plain)):
                ref.kept.append(out)
            elif isinstance(ref, list) and pointer is None:
                ref.append(out)
            else:
                ref[pointer] = out
            expect(type(target) is type(ref) and target == ref
                   and repr(target) == repr(ref), f"delivery:{kind}",
                   f"{case}: the target holds {target!r}, not {ref!r}")
        return repr(target), True


def harnesses(tier):
    return [Constructed(), Histories(), Kinds()]
