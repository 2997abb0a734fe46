"""C07: closing a store leaves nothing behind and harms nobody else."""
import os
import shutil
import subprocess
import sys
import tempfile

import numpy as np

from .. import loader, sched, simshm
from .. import world as W
from ..core import CaseHarness, SeqHarness
from ..stores import (
    attempt, blocks, copies_state, dump, expect, is_a, same, same_array, show,
)

LEVEL = "model_checking"
RULE = ("every history of storing, deleting, clearing, reopening, closing and "
        "making anew up to the stated depth, for every kind of store and "
        "clean-up setting, each followed by every way of closing; after every "
        "step the blocks of bystander stores, after every closing the list of "
        "blocks")
ASSUMPTIONS = [
    "operations do not overlap in time",
    "prefixes are chosen such that no address of one store is one of another",
    "processes exit normally (atexit handlers run)",
]

NP = {
    "one": 1, "list": ["long", {"value": 2.5}, ("x", b"\0" * 40)],
}
GP = {
    "one": np.array([1, 2], dtype="i4"), "list": np.arange(12.).reshape(3, 4),
}
IX = {"one": {"n": 1}, "list": ["a", "b", "c"] * 9}


class World:
    pass


class Closing(SeqHarness):
    kind = "Notepad"
    config = {}
    cleanup = (False, False)
    validate = 12
    keys = ("k", 3)
    deep = 4
    dumping = False

    def depth(self, tier):
        return self.deep if tier == "quick" else self.deep + 1

    def prepare(self):
        W.copy(0), W.copy(1)

    # -- the store under test ---------------------------------------------
    def open(self, h, create=False):
        mod = W.copy(h)["codex.implements"]
        W.EXIT.proc = h
        kwargs = dict(self.config)
        if self.cleanup[h]:
            kwargs["cleanup_on_exit"] = True
        return getattr(mod, self.kind)("p", create=create, **kwargs)

    def put(self, s, k, v):
        s[k] = (GP if self.kind == "GridPaper" else NP)[v]

    def listing(self, s):
        return list(s.keys())

    def drop(self, s, k):
        del s[k]

    # -- world --------------------------------------------------------------
    def world(self):
        W.reset()
        w = World()
        other = W.copy(1)["codex.implements"]
        W.EXIT.proc = 2
        w.others = [
            other.Notepad("pp", create=True), other.Notepad("q", create=True),
            other.GridPaper("q2", create=True), other.Sticky.note(5, "k"),
            other.TagIndex("pi", create=True),
        ]
        w.others[0]["k"] = "bystander"
        w.others[1]["k"] = ["another", "one"]
        w.others[2]["k"] = np.arange(3)
        w.others[4].add("k")
        w.bystanders = simshm.FS.snapshot()
        w.handles = [self.open(0, True), self.open(1)]
        w.model, w.live, w.ended = {}, True, False
        # did a process drop a handle without closing it? (at its exit, that
        # handle may well clean up whatever has its name then)
        w.unclosed = [False, False]
        w.outcome = None
        return w

    def ops(self, tier):
        out = []
        for k in self.keys:
            for v in ("one", "list"):
                out.append(("put", 0, k, v))
            out.append(("put", 1, k, "one"))
            out.append(("drop", 1, k))
        out += [("clear", 0), ("clear", 1), ("look", 0), ("look", 1),
                ("reopen", 1), ("again", 0), ("again", 1), ("lost", 0),
                ("close", 0), ("close", 1), ("make", 1)]
        out += [("end", w) for w in (
            "close0", "close1", "close0 close0", "close1 close1",
            "close0 close1", "close1 close0", "exit1 close0", "exit0 close1",
            "close0 exit0", "close0 exit0 exit1", "exit0 exit1",
            "exit1 exit0", "third", "close0 third?", "close0 anew1 exit0",
            "close0 close0 anew1 exit0", "close1 anew0 exit1")]
        if self.dumping:
            out.append(("end", "dump0"))
        return out

    def enabled(self, w, op):
        if w.ended:
            return False
        if op[0] == "end":
            if "anew" in op[1] and w.unclosed[int(op[1][-1])]:
                return False
            return w.live
        if op[0] == "clear":
            return w.live and hasattr(w.handles[0], "clear")
        if op[0] == "make":
            return not w.live
        if op[0] == "close":
            return True
        if op[0] == "lost":
            return not w.live
        return w.live

    def step(self, w, op):
        what = op[0]
        if what == "end":
            self.end(w, op[1])
            return
        h = op[1]
        W.EXIT.proc = h
        s = w.handles[h]
        if what == "put":
            got = attempt(self.put, s, op[2], op[3])
            expect(got[0] == "ok", "set-failed", f"{op}: {show(got)}")
            w.model[str(op[2])] = op[3]
        elif what == "drop":
            got = attempt(self.drop, s, op[2])
            expect((got[0] == "ok") == (str(op[2]) in w.model),
                   "del", f"{op}: {show(got)}, keys {list(w.model)}")
            w.model.pop(str(op[2]), None)
        elif what == "clear":
            got = attempt(s.clear)
            expect(got[0] == "ok", "clear-failed", f"{op}: {show(got)}")
            w.model.clear()
        elif what == "look":
            self.contents(w, f"handle {h}", s)
        elif what == "reopen":
            got = attempt(self.open, h)
            expect(got[0] == "ok", "open-failed", f"{op}: {show(got)}")
            w.handles[h] = got[1]
            w.unclosed[h] = True
        elif what == "again":
            # whatever asking for a new store of a taken name does, it must
            # not touch what is there
            before = blocks()
            attempt(self.open, h, True)
            after = {k: v for k, v in blocks().items() if k in before}
            expect(after == before, "destroyed-by-opening",
                   f"{op} changed {diff(before, after)}")
        elif what == "lost":
            before = simshm.FS.snapshot()
            got = attempt(self.open, h)
            expect(is_a(got, "FileNotFoundError"), "opened-missing",
                   f"{op}: {show(got)}, should be FileNotFoundError")
            expect(simshm.FS.snapshot() == before, "created-by-opening",
                   f"{op} changed {diff(before, simshm.FS.snapshot())}")
        elif what == "close":
            got = attempt(s.close)
            if w.live:
                expect(got[0] == "ok", "close-failed", f"{op}: {show(got)}")
            if w.live:
                w.unclosed[1 - h] = True
            w.live = False
            w.model.clear()
            self.gone(w, f"{op}")
        elif what == "make":
            self.make(w, h)
        self.neighbours(w, f"{op}")

    def make(self, w, h):
        got = attempt(self.open, h, True)
        expect(got[0] == "ok", "cannot-make-again",
               f"a new store of that name: {show(got)}")
        w.handles[h] = got[1]
        got = attempt(self.open, 1 - h)
        expect(got[0] == "ok", "open-failed",
               f"opening the new store: {show(got)}")
        w.handles[1 - h] = got[1]
        w.live = True
        w.model = {}
        self.contents(w, "the new store", w.handles[h])

    def end(self, w, way):
        w.ended = True
        done, anew = False, None
        for act in way.split():
            if act.startswith("close"):
                h = int(act[-1])
                W.EXIT.proc = h
                got = attempt(w.handles[h].close)
                expect(done or got[0] == "ok", "close-failed",
                       f"{way}: {show(got)}")
                done = True
            elif act.startswith("dump"):
                got = attempt(lambda: w.handles[0].close(dump=True))
                expect(got[0] == "ok", "close-failed", f"{way}: {show(got)}")
                done = True
            elif act.startswith("exit"):
                h = int(act[-1])
                W.EXIT.proc = h
                W.EXIT.run(h)
                if anew is not None:
                    self.contents(w, f"a new store ({way})", anew)
                    got = attempt(self.open, 1 - h)
                    expect(got[0] == "ok", "open-failed",
                           f"{way}: {show(got)}")
                    self.contents(w, f"a new handle ({way})", got[1])
                    got = attempt(anew.close)
                    expect(got[0] == "ok", "close-failed",
                           f"{way}: {show(got)}")
                    w.model, anew = {}, None
                done = done or self.cleanup[h]
            elif act.startswith("again"):
                # the same handle makes its own store again
                h = int(act[-1])
                W.EXIT.proc = h
                self.put(w.handles[h], "", "list")
                done = False
                continue
            elif act.startswith("anew"):
                # another process makes a new store of that name
                got = attempt(self.open, int(act[-1]), True)
                expect(got[0] == "ok", "cannot-make-again",
                       f"a new store of that name: {show(got)}")
                anew, w.model = got[1], {}
                for k in self.keys:
                    self.put(anew, k, "list")
                    w.model[str(k)] = "list"
                continue
            else:
                got = attempt(self.open, 1)
                if done:
                    expect(is_a(got, "FileNotFoundError"), "opened-missing",
                           f"opening after closing: {show(got)}")
                else:
                    expect(got[0] == "ok", "open-failed", f"{show(got)}")
                    got = attempt(got[1].close)
                    expect(got[0] == "ok", "close-failed",
                           f"closing by a third handle: {show(got)}")
                    done = True
            if done:
                self.gone(w, f"{act} (of {way})")
        self.neighbours(w, way)
        if done:
            self.make(w, 0)
            for k in self.keys:
                self.put(w.handles[0], k, "one")
                w.model[str(k)] = "one"
            self.contents(w, "the store made anew", w.handles[1])
        else:
            self.contents(w, "a store that was not closed", w.handles[0])

    def contents(self, w, name, s):
        got = attempt(self.listing, s)
        expect(got[0] == "ok" and sorted(map(str, got[1])) == sorted(w.model),
               "keys", f"keys by {name}: {show(got)}, not {list(w.model)}")
        menu = GP if self.kind == "GridPaper" else NP
        for k in w.model:
            got = attempt(lambda: s[k])
            expect(got[0] == "ok" and same(got[1], menu[w.model[k]]),
                   "value", f"{k!r} by {name}: {show(got)}, should be "
                            f"{menu[w.model[k]]!r}")

    def gone(self, w, when):
        left = set(simshm.FS.listing()) - set(w.bystanders)
        expect(not left, "left-behind", f"after {when}: {sorted(left)}")

    def neighbours(self, w, when):
        now = {k: v for k, v in simshm.FS.snapshot().items()
               if k in w.bystanders}
        expect(now == w.bystanders, "bystander-harmed",
               f"{when} changed {diff(w.bystanders, now)}")

    def canon(self, w):
        return repr((sorted(blocks().items()), dump(w.handles),
                     copies_state(), w.model, w.live, w.ended, w.unclosed,
                     [(p, [f[0].__qualname__ for f in fs]) for p, fs in
                      sorted(W.EXIT.by_proc.items())]))

    def audit(self, w):
        o = w.others
        expect(o[0]["k"] == "bystander" and o[1]["k"] == ["another", "one"]
               and same_array(o[2]["k"], np.arange(3))
               and o[3].read(True) == 5 and o[4].update() == ["k"],
               "bystander-harmed", "a bystander store lost its contents")
        w.outcome = (w.live, w.ended, sorted(w.model))


def diff(one, two):
    return {k: (one.get(k), two.get(k)) for k in {**one, **two}
            if one.get(k) != two.get(k)}


class IndexClosing(Closing):
    kind = "TagIndex"

    def put(self, s, k, v):
        if self.kind == "TagIndex":
            s.add(k)
        else:
            s.add(k, IX[v])

    def listing(self, s):
        return list(s.update())

    def drop(self, s, k):
        s.remove(k)

    def contents(self, w, name, s):
        got = attempt(self.listing, s)
        expect(got[0] == "ok" and sorted(got[1]) == sorted(w.model),
               "keys", f"keys by {name}: {show(got)}, not {list(w.model)}")
        if self.kind == "MetaTagIndex":
            got = attempt(s.items)
            expect(got[0] == "ok" and dict(got[1]) == {
                k: IX[v] for k, v in w.model.items()}, "items",
                f"items by {name}: {show(got)}, not {w.model}")


class StickyClosing(Closing):
    kind = "Sticky"
    keys = ("",)

    def open(self, h, create=False):
        mod = W.copy(h)["codex.implements"]
        W.EXIT.proc = h
        kwargs = {"cleanup_on_exit": True} if self.cleanup[h] else {}
        if create:
            return mod.Sticky.note(NP["one"], "p", **kwargs)
        return mod.Sticky("p", **kwargs)

    def put(self, s, k, v):
        s.stick(NP[v])

    def contents(self, w, name, s):
        got = attempt(lambda: s.read(reread=True))
        want = NP[w.model.get("", "one")]
        expect(got[0] == "ok" and same(got[1], want), "value",
               f"re-read by {name}: {show(got)}, should be {want!r}")

    def ops(self, tier):
        return super().ops(tier) + [("end", "close0 again0 exit0"),
                                    ("end", "close0 again0 exit0 exit1")]

    def enabled(self, w, op):
        if op[0] in ("drop", "clear", "lost", "again"):
            return False
        if op[0] == "end" and ("third" in op[1] or "dump" in op[1]):
            return False
        return super().enabled(w, op)


class Dumping(Closing):
    """closing with dump=True: the files hold the last values' bytes."""
    dumping = True
    deep = 4

    def ops(self, tier):
        return [op for op in super().ops(tier)
                if op[0] in ("put", "drop") or op == ("end", "dump0")]

    def step(self, w, op):
        if op[0] != "end":
            return super().step(w, op)
        where = tempfile.mkdtemp(prefix="mcdump")
        back = os.getcwd()
        os.chdir(where)
        want = {}
        for k, v in w.model.items():
            if self.kind == "GridPaper":
                want[f"p_{k}"] = GP[v].tobytes()
            else:
                want[f"p_{k}"] = W.copy(0)["codex.codecs"] \
                    .pickle_codec_factory()[0](NP[v])
        try:
            super().step(w, op)
            made = {f: open(f, "rb").read() for f in os.listdir(".")}
            expect(made == want, "dump", f"dumped {made}, should be {want}")
        finally:
            os.chdir(back)
            shutil.rmtree(where)


def make(base, label, kind, config=None, cleanup=(False, False), deep=4,
         light=False):
    class Made(base):
        pass
    h = Made()
    h.name, h.kind, h.config, h.cleanup = label, kind, config or {}, cleanup
    h.deep = deep
    if light:
        h.validate = 4
    return h


PROGRAM = """
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, {repo!r})
import numpy as np
from dustgoggles.codex.implements import *
from dustgoggles.codex.memutilz import (
    deactivate_shared_memory_resource_tracker as off)
off()
kind, end = {kind!r}, {end!r}
if kind == "Sticky":
    s = Sticky.note([1, 2], {name!r}, cleanup_on_exit=True)
else:
    s = globals()[kind]({name!r}, create=True, cleanup_on_exit=True)
    for k in ("k", "kk", "k3"):
        if kind.endswith("Index"):
            s.add(k)
        else:
            s[k] = np.arange(4)
    if kind.endswith("Index"):
        s.remove("k")
    else:
        del s["k"]
import os
print(sum(f.startswith({name!r}) for f in os.listdir("/dev/shm")), flush=True)
if end == "raise":
    raise ValueError("unhandled")
if end == "exit":
    sys.exit(3)
if end == "close":
    s.close()
"""


class RealExit(CaseHarness):
    """the same on real processes, which exit in every usual way."""
    name = "real-exit"

    def cases(self, tier):
        for kind in ("Notepad", "GridPaper", "TagIndex", "MetaTagIndex",
                     "Sticky"):
            for end in ("return", "raise", "exit", "close"):
                yield kind, end

    def explore(self, tier, report, jobs=8):
        super().explore(tier, report, jobs)
        report.traces += len(list(self.cases(tier)))

    def run(self, case):
        kind, end = case
        name = f"mcexit{os.getpid()}{kind}{end}"
        sched.SEQ_SLEEP[0] = None       # other processes do run now
        try:
            ran = subprocess.run(
                [sys.executable, "-B", "-c", PROGRAM.format(
                    repo=loader.REPO, kind=kind, end=end, name=name)],
                capture_output=True, timeout=50)
            left = [f for f in simshm.REAL_OS["listdir"]("/dev/shm") if f.startswith(name)]
        finally:
            sched.SEQ_SLEEP[0] = W.LIMIT
            for f in simshm.REAL_OS["listdir"]("/dev/shm"):
                if f.startswith(name):
                    simshm.REAL_OS["unlink"](os.path.join("/dev/shm", f))
        expect(ran.stdout.strip().isdigit() and int(ran.stdout) > 0,
               f"not-made:{kind}", f"{kind}: {ran.stderr[-500:]!r}")
        expect(not left, f"left-behind:{kind}:{end}",
               f"{kind} with cleanup_on_exit, process ended by {end}: {left}")
        return "gone"


class Neighbours(CaseHarness):
    """two stores whose names are alike live side by side."""
    name = "neighbours"
    kinds = ("Notepad", "GridPaper", "TagIndex", "MetaTagIndex", "Sticky")
    keys = ("k", "K", "k" * 70 + "1", "k" * 70 + "2", "1" + "k" * 70)

    def pairs(self, tier):
        yield from [("p", "P"), ("p", "p "), ("p", "pp"), ("p1", "p01"),
                    ("1", "1.0"), ("p.q", "p-q"), ("p", "\u0440"),
                    ("\u00e9", "e\u0301"), ("\u00e9", "\u00e8"),
                    ("a" + "\u00e9" * 30, "b" + "\u00e9" * 30)]
        for n in ((7, 15, 23, 31, 39, 47, 63, 79, 95) if tier == "quick"
                  else range(2, 100)):
            yield "s" * n + "1", "s" * n + "2"
            yield "1" + "s" * n, "2" + "s" * n
            yield "s" * n, "s" * (n + 1)
            yield f"{'s' * (n // 2)}1{'s' * n}", f"{'s' * (n // 2)}2{'s' * n}"

    def cases(self, tier):
        for pair in self.pairs(tier):
            for one in self.kinds:
                for two in self.kinds:
                    yield pair, one, two

    def setup(self):
        W.copy(0), W.copy(1)

    def open(self, h, kind, name, create=True):
        cls = getattr(W.copy(h)["codex.implements"], kind)
        return cls(name) if kind == "Sticky" else cls(name, create=create)

    def value(self, kind, label, k):
        if kind == "GridPaper":
            return np.frombuffer(f"{label}{k}".encode(), dtype="u1")
        return {label: k}

    def fill(self, kind, s, label, other):
        if kind == "Sticky":
            s.stick(("first", label))
            s.stick(("second", label, "x" * 50))
            return {"": ("second", label, "x" * 50)}
        want = {}
        # the names of the other store's blocks make fine keys
        theirs = () if len(other) > 60 else (
            other, f"{other}_k", f"{other}_index", f"{other}_count")
        for k in self.keys + theirs + ("extra",):
            want[k] = self.value(kind, label, k)
            if kind == "TagIndex":
                s.add(k)
            elif kind == "MetaTagIndex":
                s.add(k, want[k])
            else:
                s[k] = want[k]
        for k in theirs[1:] + ("extra",):
            del want[k]
            if kind.endswith("Index"):
                s.remove(k)
            else:
                del s[k]
        return want

    def contents(self, when, kind, s, want):
        label = f"{when}: {kind}"
        if kind == "Sticky":
            got = attempt(lambda: s.read(reread=True))
            expect(got[0] == "ok" and same(got[1], want.get("")),
                   f"sticky:{kind}", f"{label} reads {show(got)}")
            return
        got = attempt(lambda: list(s.update() if kind.endswith("Index")
                                   else s.keys()))
        expect(got[0] == "ok" and sorted(got[1]) == sorted(want),
               f"keys:{kind}", f"{label} lists {show(got)}, not {list(want)}")
        if kind == "TagIndex":
            return
        for k, v in want.items():
            got = attempt(lambda: dict(s.items())[k]
                          if kind == "MetaTagIndex" else s[k])
            expect(got[0] == "ok" and same(got[1], v), f"value:{kind}",
                   f"{label}[{k!r}] is {show(got)}, should be {v!r}")

    def run(self, case):
        pair, *kinds = case
        W.reset()
        stores = [self.open(i, kinds[i], pair[i]) for i in (0, 1)]
        want = [self.fill(kinds[i], stores[i], f"l{i}", pair[1 - i])
                for i in (0, 1)]

        def look(when):
            for i in (0, 1):
                if want[i] is not None:
                    self.contents(f"{when} (names {pair})", kinds[i],
                                  stores[i], want[i])
                    self.contents(
                        f"{when} (names {pair}), new handle", kinds[i],
                        self.open(1 - i, kinds[i], pair[i], False), want[i])

        look("both made")
        want[0] = self.fill(kinds[0], stores[0], "long label " * 3,
                            pair[1])
        look("first filled anew")
        for i in (0, 1):
            stores[i].close()
            want[i] = None
            look(f"{i} closed")
            stores[i] = self.open(i, kinds[i], pair[i])
            want[i] = {}
            look(f"{i} made anew")
            want[i] = self.fill(kinds[i], stores[i], "l3", pair[1 - i])
            look(f"{i} filled anew")
        for i in (0, 1):
            stores[i].close()
            want[i] = None
            look(f"{i} closed at last")
        left = simshm.FS.listing()
        expect(not left, "left-behind", f"{case}: {left}")
        return (kinds[0], kinds[1]), True


def harnesses(tier):
    T, F = True, False
    return [
        make(Closing, "notepad", "Notepad"),
        make(Closing, "notepad-cleanup", "Notepad", cleanup=(T, F)),
        make(Closing, "notepad-cleanup-both", "Notepad", cleanup=(T, T)),
        make(Closing, "notepad-nolock", "Notepad", {"no_lockout": True},
             cleanup=(T, F), deep=2),
        make(Dumping, "notepad-dump", "Notepad"),
        make(Closing, "gridpaper", "GridPaper", cleanup=(F, T)),
        make(Dumping, "gridpaper-dump", "GridPaper"),
        make(IndexClosing, "tag-index", "TagIndex", cleanup=(T, F)),
        make(IndexClosing, "meta-index", "MetaTagIndex", cleanup=(F, T)),
        make(StickyClosing, "sticky", "Sticky", cleanup=(T, F)),
        Neighbours(), RealExit(),
    ]
