"""M04: a dumped tracker log is always a valid list of all logs."""
import itertools
import json
import os
import pathlib
import resource
import shutil
import signal
import sys
import tempfile

from ..core import CaseHarness, SeqHarness, Violation
from ..loader import load
from ..judge import attempt, expect, same, show

LEVEL = "model_checking"
RULE = ("every history of tracking (several kinds of target and metadata), "
        "setting metadata, pausing, clearing, dumping and failing to dump by "
        "two trackers of the same file up to the stated depth; after every "
        "operation the file is parsed and compared with a list of the logs "
        "dumped, and each history with a list of the calls made; and every "
        "byte at which a write of a dump can fail or its process can be "
        "killed, and every file operation before which it can be killed, for "
        "files with 0-2 earlier dumps: the file must hold the earlier dumps, "
        "or these and the new one")
ASSUMPTIONS = [
    "a dump fails because the log can't be serialized, because the file can't "
    "be opened or because no more bytes can be written; a process dies at a "
    "byte it writes or before it opens, renames, removes or shortens a file",
    "metadata keys do not collide with the fields of a record",
]


def named(x):
    return x


class Nameless:
    def __repr__(self):
        return "<nameless thing>"

    def __call__(self):
        pass


class Titled:
    """has a name, but not a qualified one (as a Dynamic)"""
    def __init__(self, name):
        self.__name__ = name

    def __call__(self):
        pass


TARGETS = {"named": (named, "named"), "len": (len, "len"),
           "nameless": (Nameless(), "<nameless thing>"),
           "titled": (Titled("title"), "title")}


class Histories(SeqHarness):
    name = "histories"
    direct = True
    names = ("log", "log")
    merge = True

    def depth(self, tier):
        return 4 if tier == "quick" else 5

    def ops(self, tier):
        ops = []
        for t in (0, 1):
            ops += [
                (t, "track", "named", ()),
                (t, "track", "nameless", (("note", "x"), ("é", [1]))),
                (t, "track", "len", (("step", b"no"),)),
                (t, "meta", "run", 1), (t, "meta", "run", 2),
                (t, "meta", "stage", None),
                (t, "pause", True), (t, "pause", False),
                (t, "dump"), (t, "clear"),
            ]
        ops.append((0, "blocked-dump"))
        ops.append((1, "track", "long", ()))
        ops.append((0, "track", "titled", ()))
        return ops

    def prepare(self):
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="mc-m04-"))

    def explore(self, tier, report, *args):
        try:
            super().explore(tier, report, *args)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def make(self, w):
        cls = load("tracker").Tracker
        return [cls(n, identifier="it", outdir=w.dir) for n in self.names]

    def world(self):
        class World:
            pass
        w = World()
        w.dir = self.dir / str(os.getpid())
        w.dir.mkdir(exist_ok=True)
        for old in w.dir.iterdir():
            old.unlink()
        w.trackers = self.make(w)
        w.path = w.dir / "it_log.json"
        w.file = []                 # what the file should hold
        w.hist = [[], []]           # what the trackers should hold
        w.meta = [{}, {}]
        w.paused = [False, False]
        return w

    def step(self, w, op):
        t, what = op[:2]
        tracker = w.trackers[t]
        w.outcome = None
        if what == "track":
            extra = dict(op[3])
            if op[2] == "long":
                fn, target = TARGETS["named"]
                extra = {"long": "y" * 9000}
            else:
                fn, target = TARGETS[op[2]]

            def some_caller():
                return sys._getframe().f_lineno, tracker.track(fn, **extra)
            got = attempt(some_caller)
            expect(got[0] == "ok", "track", f"{op}: {show(got)}")
            if tracker.history:
                expect(tracker.history[-1].get("lineno") == got[1][0],
                       "lineno", f"{op}: called in line {got[1][0]}, "
                       f"recorded {tracker.history[-1]}")
            w.hist[t].append(
                {"target": target, "caller": "some_caller",
                 "trackcount": len(w.hist[t]) + 1} | w.meta[t] | extra)
        elif what == "meta":
            tracker.set_metadata(**{op[2]: op[3]})
            w.meta[t] = w.meta[t] | {op[2]: op[3]}
        elif what == "pause":
            tracker.paused = op[2]
            w.paused[t] = op[2]
        elif what == "clear":
            got = attempt(tracker.clear)
            expect(got[0] == "ok", "clear", f"{op}: {show(got)}")
            w.file = []
            w.hist[t] = []
        elif what == "blocked-dump":
            # the file can't be opened: something else is there
            stash = w.path.with_suffix(".stash")
            if w.path.exists():
                os.rename(w.path, stash)
            w.path.mkdir()
            try:
                got = attempt(tracker.dump)
            finally:
                w.path.rmdir()
                if stash.exists():
                    os.rename(stash, w.path)
            expect(got[0] != "ok" or w.paused[t], "dump",
                   "dump succeeded although its file can't be opened")
        elif what == "dump":
            good = not any(r.get("step") == b"no" for r in w.hist[t])
            got = attempt(tracker.dump)
            if w.paused[t]:
                expect(got[0] == "ok", "paused", f"paused dump: {show(got)}")
            elif good:
                expect(got[0] == "ok", "dump", f"{op}: {show(got)}")
                w.file = w.file + [
                    (self.names[t], json.loads(json.dumps(w.hist[t])))]
            else:
                expect(got[0] != "ok", "dump",
                       "dump succeeded with an unserializable record")
        self.compare(w, op)

    def compare(self, w, op):
        if not w.file:
            expect(not w.path.exists(), "file",
                   f"after {op} there is a file, but nothing was dumped: "
                   f"{w.path.exists() and w.path.read_text()[:300]}")
            logs = []
        else:
            expect(w.path.exists(), "file", f"after {op} the file is gone")
            raw = w.path.read_bytes()
            try:
                logs = json.loads(raw)
            except ValueError as ex:
                raise Violation("invalid", f"after {op} the file is not "
                                           f"valid JSON ({ex}): "
                                           f"{raw[:400]!r}")
        expect(isinstance(logs, list), "invalid", f"the file holds {logs!r}")
        shown = [(e.get("name"), self.strip(e.get("history", [])))
                 for e in logs]
        expect(same(shown, w.file), "logs",
               f"after {op} the file holds {shown}, should be {w.file}")
        for t in (0, 1):
            got = self.strip(w.trackers[t].history)
            expect(same(got, w.hist[t]), "history",
                   f"after {op} history {t} is {got}, should be {w.hist[t]}")
            expect(w.trackers[t].log.get("name") == self.names[t], "name",
                   f"the log is {w.trackers[t].log}")
            expect(w.trackers[t].paused is w.paused[t], "paused",
                   f"after {op} paused is {w.trackers[t].paused}")
        others = [p.name for p in w.dir.iterdir() if p != w.path]
        expect(not others, "files", f"after {op} there are {others}")
        w.outcome = shown

    @staticmethod
    def strip(history):
        return [{k: v for k, v in r.items() if k != "lineno"}
                for r in history]

    def audit(self, w):
        # whatever happened, dumping goes on working
        for t in (0, 1):
            self.step(w, (t, "pause", False))
            self.step(w, (t, "dump"))
        trivial = load("tracker").TrivialTracker()
        for fn in (trivial.dump, trivial.clear, lambda: trivial.track(len, a=1),
                   lambda: trivial.set_metadata(b=1)):
            expect(attempt(fn) == ("ok", None), "trivial",
                   "a TrivialTracker did something")

    def canon(self, w):
        return repr((w.file, w.hist, w.meta, w.paused,
                     [list(t.log) for t in w.trackers]))


class Several(CaseHarness):
    """trackers of different names or identifiers do not share a file."""
    name = "several"
    WHO = (("log", "it"), ("log", ""), ("other", "it"), ("log", "IT"),
           ("", "it"), ("it_log", ""), (None, "it"))

    def cases(self, tier):
        n = 3 if tier == "quick" else 4
        acts = [(w, a) for w in range(3) for a in ("dump", "clear", "new")]
        for trio in itertools.permutations(range(len(self.WHO)), 3):
            # "it_log" without an identifier is "log" with the identifier "it"
            if {0, 5} <= set(trio):
                continue
            if tier == "quick" and trio != tuple(sorted(trio)):
                continue
            for ops in itertools.product(acts, repeat=n):
                yield trio, ops

    def explore(self, tier, report, *args):
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="mc-m04-"))
        try:
            super().explore(tier, report, *args)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def replay(self, case):
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="mc-m04-"))
        try:
            return super().replay(case)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def run(self, case):
        trio, ops = case
        where = self.dir / str(os.getpid())
        shutil.rmtree(where, ignore_errors=True)
        cls = load("tracker").Tracker

        def new(i):
            name, identifier = self.WHO[trio[i]]
            return cls(name, identifier=identifier, outdir=where)
        trackers = [new(i) for i in range(len(trio))]
        counts, files = [0] * len(trio), [[] for _ in trio]
        for i, act in ops:
            if act == "new":
                trackers[i] = new(i)
                counts[i] = 0
            elif act == "clear":
                trackers[i].clear()
                counts[i], files[i] = 0, []
            else:
                trackers[i].track(named, by=i)
                trackers[i].dump()
                counts[i] += 1
                files[i] = files[i] + [counts[i]]
            for j in range(len(trio)):
                path = trackers[j].outpath
                got = []
                if path.exists():
                    got = [len(e["history"]) for e in
                           json.loads(path.read_text())]
                expect(got == files[j], "shared-file",
                       f"{case}: after {(i, act)} the file {path.name} of "
                       f"{self.WHO[trio[j]]} holds logs of {got} records, "
                       f"should be {files[j]}")
        names = len(list(where.iterdir()))
        expect(names == sum(map(bool, files)), "files",
               f"{case}: {names} files, should be {files}")
        return (names, str(files)), True


class Pairs(Several):
    """more names."""
    name = "pairs"
    WHO = Several.WHO + (
        ("log.1", "it"), ("log.2", "it"), ("log", "it.1"), ("log.json", "it"),
        ("LOG", "it"), ("log", "\u00e9"), ("lo g", "it"), ("1", "it"),
        (1.5, "it"), ("untitled Composition", ""), ("log ", "it"))

    def cases(self, tier):
        n = 2 if tier == "quick" else 4
        acts = [(w, a) for w in range(2) for a in ("dump", "clear", "new")]
        for pair in itertools.combinations(range(len(self.WHO)), 2):
            if pair != (0, 5):
                for ops in itertools.product(acts, repeat=n):
                    yield pair, ops


class Dumps(Histories):
    """fewer operations, longer histories."""
    name = "dumps"

    def depth(self, tier):
        return 6 if tier == "quick" else 8

    def ops(self, tier):
        return [(0, "track", "named", ()), (0, "dump"),
                (0, "track", "len", (("step", b"no"),)),
                (1, "track", "long", ()), (1, "dump"), (1, "clear"),
                (0, "clear"), (1, "meta", "run", 1), (0, "blocked-dump")]


class Torn(CaseHarness):
    """writes that fail, and processes that die, at every point of a dump."""
    name = "torn"
    EVENTS = ("open", "os.rename", "os.remove", "os.truncate", "os.link",
              "os.chmod", "os.mkdir", "shutil.move", "shutil.copyfile")

    def sizes(self):
        """how long files get, by number of dumps and length of records."""
        where = pathlib.Path(tempfile.mkdtemp(prefix="mc-m04-"))
        try:
            out = {}
            for long in (0, 1):
                tracker = self.tracker(where / str(long), long)
                for n in range(4):
                    tracker.dump()
                    out[n, long] = tracker.outpath.stat().st_size
                    tracker.track(named)
            return out
        finally:
            shutil.rmtree(where, ignore_errors=True)

    def tracker(self, where, long):
        where.mkdir(exist_ok=True)
        tracker = load("tracker").Tracker("log", outdir=where)
        tracker.track(named, text="y" * (9000 if long else 1))
        return tracker

    def cases(self, tier):
        sizes = self.sizes()
        for how in ("fail", "kill"):
            for long in (0, 1):
                for earlier in (0, 1, 2):
                    last = sizes[earlier, long] + 40
                    near = {0, last}
                    for n in range(earlier + 1):
                        near.add(sizes[n, long])
                    for n in range(0, last * 2, 4096):
                        near.add(n)
                    for limit in range(last):
                        if (tier != "quick" or not long and earlier < 2
                                or limit % 128 == 0
                                or any(abs(limit - n) < 8 for n in near)):
                            yield how, long, earlier, limit
        for long in (0, 1):
            for earlier in (0, 1, 2):
                for n in range(1, 12):
                    yield "event", long, earlier, n

    def explore(self, tier, report, *args):
        self.dir = pathlib.Path(tempfile.mkdtemp(prefix="mc-m04-"))
        try:
            super().explore(tier, report, *args)
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    replay = Several.replay

    def run(self, case):
        how, long, earlier, point = case
        where = self.dir / str(os.getpid())
        shutil.rmtree(where, ignore_errors=True)
        tracker = self.tracker(where, long)
        for n in range(earlier):
            tracker.dump()
            tracker.track(named, n=n)
        if how == "fail":
            done = self.limited(tracker, point)
        else:
            done = self.killed(tracker, how, point)
        old = list(range(1, earlier + 1))
        got = self.entries(tracker, case)
        new = old + [earlier + 1]
        expect(got == new if done else got in (old, new), "torn",
               lambda: f"{case}: the file holds logs of {got} records, should "
               f"be {old} or {new}")
        # it goes on
        if how != "fail":
            tracker = self.tracker(where, long)
        tracker.dump()
        again = self.entries(tracker, case)
        want = got + [earlier + 1 if how == "fail" else 1]
        expect(again == want, "after",
               lambda: f"{case}: after another dump, logs of {again} records, "
               f"should be {want}")
        tracker.clear()
        expect(self.entries(tracker, case) == [], "clear",
               lambda: f"{case}: something left by clear()")
        return (done, got), True

    def entries(self, tracker, case):
        if not tracker.outpath.exists():
            return []
        text = tracker.outpath.read_text()
        try:
            return [len(e["history"]) for e in json.loads(text)]
        except ValueError as ex:
            raise Violation("invalid", f"{case}: the file holds "
                            f"...{text[-100:]!r}: {ex}")

    def limited(self, tracker, limit):
        old = resource.getrlimit(resource.RLIMIT_FSIZE)
        resource.setrlimit(resource.RLIMIT_FSIZE, (limit, old[1]))
        try:
            return attempt(tracker.dump)[0] == "ok"
        finally:
            resource.setrlimit(resource.RLIMIT_FSIZE, old)

    def killed(self, tracker, how, point):
        pid = os.fork()
        if pid == 0:
            try:
                resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
                signal.setitimer(signal.ITIMER_REAL, 0)
                if how == "kill":
                    signal.signal(signal.SIGXFSZ, signal.SIG_DFL)
                    resource.setrlimit(resource.RLIMIT_FSIZE, (point, point))
                else:
                    left = [point]

                    def hook(event, args):
                        if event in self.EVENTS:
                            left[0] -= 1
                            if left[0] == 0:
                                os.kill(os.getpid(), signal.SIGKILL)
                    sys.addaudithook(hook)
                tracker.dump()
                os._exit(0)
            finally:
                os._exit(3)
        status = os.waitpid(pid, 0)[1]
        expect(status in (0, signal.SIGXFSZ, signal.SIGKILL), "child",
               f"the dump ended with {status}")
        return status == 0


def harnesses(tier):
    return [Histories(), Dumps(), Several(), Pairs(), Torn()]
