"""C10: block primitives and the resource-tracker switch."""
import errno
import itertools
import os
import subprocess
import sys
from multiprocessing import resource_tracker as tracker
import multiprocessing.shared_memory as shm_mod
from multiprocessing.shared_memory import SharedMemory

from .. import loader, sched, simshm
from .. import world as W
from ..core import CaseHarness, SeqHarness
from ..stores import attempt, dump, expect, is_a, show

LEVEL = "model_checking"
RULE = ("every sequence of opening (creating or not, overwriting or not, "
        "several sizes), writing, fetching, testing and deleting up to the "
        "stated depth on two or three addresses, against a table of byte "
        "strings; every sequence of switching the tracker off and using it")
ASSUMPTIONS = ["operations do not overlap in time (C04 and C05 cover that)",
               "open_block(create=False, overwrite=True) is not judged"]


class World:
    pass


class Blocks(SeqHarness):
    name = "blocks"
    validate = 60
    names = ("x", "xy")
    sizes = (1, 4, 9)
    deep = 5

    def depth(self, tier):
        return self.deep if tier == "quick" else self.deep + 2

    def mod(self):
        return W.copy(0)["codex.memutilz"]

    def prepare(self):
        W.copy(0)

    def world(self):
        W.reset()
        w = World()
        w.half = {}            # names of blocks others are still making
        w.table = {}           # name -> [bytearray]
        w.held = {}            # name -> (block, bytearray)
        w.outcome = None
        return w

    def ops(self, tier):
        out = []
        for n in self.names:
            for size in self.sizes:
                out.append(("open", n, size, "create"))
                out.append(("open", n, size, "overwrite"))
            out.append(("open", n, 4, "attach"))
            out.append(("open", n, 4, "default"))
            out += [("write", n, 65), ("write", n, 66)]
            out += [("delete", n, False), ("delete", n, True),
                    ("delete", n, None)]
            out += [("drop", n), ("half", n), ("size", n, 4)]
        return out

    def enabled(self, w, op):
        if op[0] == "half":
            return op[1] not in w.table and op[1] not in w.half
        if op[0] == "size":
            return op[1] in w.half
        if op[1] in w.half and op[0] in ("open", "delete"):
            return False        # these wait for, or refuse, such a block
        if op[0] in ("write", "drop"):
            return op[1] in w.held
        return True

    def step(self, w, op):
        what, n = op[:2]
        m = self.mod()
        if what == "open":
            size, mode = op[2:]
            there = n in w.table
            if mode == "default":
                got = attempt(m.open_block, n, size)
            elif mode == "attach":
                got = attempt(m.open_block, n, size, create=False)
            elif mode == "overwrite":
                got = attempt(m.open_block, n, size, True, True)
            else:
                got = attempt(m.open_block, n, size, create=True,
                              overwrite=False)
            if mode == "attach" and not there:
                expect(is_a(got, "FileNotFoundError"), "opened-missing",
                       f"{op}: {show(got)}, should be FileNotFoundError")
            else:
                expect(got[0] == "ok" and isinstance(got[1], SharedMemory),
                       "open-failed", f"{op}: {show(got)}")
                if mode == "overwrite" or not there:
                    w.table[n] = bytearray(size)
                w.held[n] = (got[1], w.table[n])
                expect(got[1].size == len(w.table[n]), "size",
                       f"{op} gave a block of size {got[1].size}, should be "
                       f"{len(w.table[n])}")
                expect(got[1].buf.tobytes() == bytes(w.table[n]), "contents",
                       f"{op} shows {got[1].buf.tobytes()!r}, should be "
                       f"{bytes(w.table[n])!r}")
        elif what == "half":
            w.half[n] = simshm._Posix.shm_open(
                "/" + n, os.O_CREAT | os.O_EXCL | os.O_RDWR, mode=0o600)
        elif what == "size":
            fd = w.half.pop(n)
            shm_mod.os.ftruncate(fd, op[2])
            shm_mod.os.close(fd)
            w.table[n] = bytearray(op[2])
        elif what == "write":
            block, data = w.held[n]
            text = bytes([op[2]]) * len(data)
            block.buf[:] = text
            data[:] = text
        elif what == "drop":
            block, _ = w.held.pop(n)
            block.close()
        elif what == "delete":
            args = () if op[2] is None else (op[2],)
            got = attempt(m.delete_block, n, *args)
            if n in w.table or op[2]:
                expect(got[0] == "ok", "delete-failed", f"{op}: {show(got)}")
                w.table.pop(n, None)
            else:
                expect(is_a(got, "FileNotFoundError"), "deleted-missing",
                       f"{op}: {show(got)}, should be FileNotFoundError")

    def canon(self, w):
        return repr((sorted(simshm.FS.snapshot().items()), w.table,
                     sorted(w.half), dump(w.held)))

    def audit(self, w):
        m = self.mod()
        now = simshm.FS.snapshot()
        want = {k: bytes(v) for k, v in w.table.items()}
        want |= {k: b"" for k in w.half}
        expect(now == want, "table", f"blocks are {now}, should be {want}")
        for n in self.names + ("absent",):
            got = attempt(m.exists_block, n)
            expect(got == ("ok", n in want), "exists",
                   f"exists_block({n!r}): {show(got)}, blocks {want}")
            if n in w.half:
                continue
            got = attempt(m.fetch_block_bytes, n)
            if n in want:
                expect(got == ("ok", want[n]), "fetch",
                       f"fetch_block_bytes({n!r}): {show(got)}, should be "
                       f"{want[n]!r}")
                expect(type(got[1]) is bytes, "fetch-type", show(got))
            else:
                expect(is_a(got, "FileNotFoundError"), "fetch-missing",
                       f"fetch_block_bytes({n!r}): {show(got)}")
        expect(simshm.FS.snapshot() == want, "looking-changed",
               "exists_block or fetch_block_bytes changed the blocks")
        for n, (block, data) in w.held.items():
            expect(block.buf.tobytes() == bytes(data), "held",
                   f"the block held for {n!r} shows {block.buf.tobytes()!r}, "
                   f"should be {bytes(data)!r}")
        w.outcome = sorted(want.items())


class Closure(Blocks):
    name = "blocks-closure"
    names = ("x",)
    sizes = (1, 2, 5, 4097)
    deep = 30


class Unmerged(Blocks):
    name = "blocks-unmerged"
    merge = False
    validate = 20
    names = ("x",)
    sizes = (2,)
    deep = 5

    def ops(self, tier):
        return [op for op in super().ops(tier)
                if op[-1] not in (66, None, "default")]


class Names(CaseHarness):
    """
    unusable names: the primitives refuse them, touch nothing, and the
    simulated file system refuses exactly what the real one refuses.
    """
    name = "names"
    ODD = ["", "/", "a/b", "/a", "nul\0", ".", "..", "x" * 250, "x" * 254,
           "x" * 255, "x" * 256, "x" * 300, "é" * 126, "é" * 128, "\ud800",
           "\udc80", " ", "a b", "*", "日本", "a\nb", "-", "~", "x" * 253,
           5, None, b"bytes"]

    def cases(self, tier):
        return range(len(self.ODD))

    def run(self, i):
        name = self.ODD[i]
        fs = W.reset()
        real = simshm._REAL["_posixshmem"]

        def kind(fn):
            try:
                return "ok", fn()
            except Exception as ex:
                return type(ex).__name__, getattr(ex, "errno", None)

        if isinstance(name, str):
            sim_answer = kind(lambda: simshm._Posix._shm_open(
                "/" + name, os.O_RDWR))
            true_answer = kind(lambda: real.shm_open(
                "/" + name, os.O_RDWR, mode=0o600))
            if sim_answer != true_answer:
                raise RuntimeError(
                    f"simulation of name {name!r}: {sim_answer}, real "
                    f"{true_answer}")
            usable = sim_answer == ("FileNotFoundError", errno.ENOENT)
        else:
            usable = False
        m = W.copy(0)["codex.memutilz"]
        block = attempt(m.open_block, "bystander", 3)[1]
        block.buf[:] = b"abc"
        # a None name would mean "make up a name" to SharedMemory
        if name is not None:
            got = attempt(m.open_block, name, 5)
            expect((got[0] == "ok") == usable, "open",
                   f"open_block({name!r}): {show(got)}")
            got = attempt(m.exists_block, name)
            expect(usable and got == ("ok", True) or not usable and
                   got != ("ok", True), "exists",
                   f"exists_block({name!r}): {show(got)}")
            got = attempt(m.delete_block, name)
            expect((got[0] == "ok") == usable, "delete",
                   f"delete_block({name!r}): {show(got)}")
        expect(fs.snapshot() == {"bystander": b"abc"}, "bystander",
               f"after {name!r}: {fs.snapshot()}")
        return (i, usable), True


def there(path):
    """is it on the real file system?"""
    return os.path.basename(path) in simshm.REAL_OS["listdir"]("/dev/shm")


class Ear:
    """stands in for the connection to the resource tracker process."""

    def __init__(self):
        self.heard = []

    def register(self, name, rtype):
        self.heard.append(("register", name, rtype))

    def unregister(self, name, rtype):
        self.heard.append(("unregister", name, rtype))


class Switch(CaseHarness):
    """every order of switching off and using the resource tracker."""
    name = "tracker-switch"
    ACTS = ("off", "create", "attach", "unlink", "sem+", "sem-")

    def cases(self, tier):
        for n in range(1, 5 if tier == "quick" else 6):
            yield from itertools.product(self.ACTS, repeat=n)

    def run(self, acts):
        W.reset()
        m = W.copy(0)["codex.memutilz"]
        ear = Ear()
        kept = {k: getattr(tracker, k) for k in (
            "_resource_tracker", "register", "unregister", "ensure_running",
            "getfd")}
        funcs = dict(tracker._CLEANUP_FUNCS)
        tracker._resource_tracker = ear
        tracker.register, tracker.unregister = ear.register, ear.unregister
        shm_mod.resource_tracker = tracker
        off, there, want = False, False, []
        try:
            for act in acts:
                if act == "off":
                    got = attempt(
                        m.deactivate_shared_memory_resource_tracker)
                    expect(got == ("ok", None), "off", f"{acts}: {show(got)}")
                    off = True
                elif act == "create" and not there:
                    attempt(SharedMemory, "x", True, 4)
                    there = True
                    if not off:
                        want.append(("register", "/x", "shared_memory"))
                elif act == "attach" and there:
                    attempt(SharedMemory, "x")
                    if not off:
                        want.append(("register", "/x", "shared_memory"))
                elif act == "unlink" and there:
                    block = SharedMemory("x")
                    if not off:
                        want.append(("register", "/x", "shared_memory"))
                        want.append(("unregister", "/x", "shared_memory"))
                    block.unlink()
                    there = False
                elif act in ("sem+", "sem-"):
                    what = "register" if act == "sem+" else "unregister"
                    getattr(tracker, what)("/s", "semaphore")
                    want.append((what, "/s", "semaphore"))
                expect(ear.heard == want, "heard",
                       f"{acts}: the tracker heard {ear.heard}, should have "
                       f"heard {want}")
            left = dict(tracker._CLEANUP_FUNCS)
            if off:
                left.pop("shared_memory", None)
                expect("shared_memory" not in tracker._CLEANUP_FUNCS,
                       "cleanup", "the tracker would still clean up")
                full = {k: v for k, v in funcs.items()
                        if k != "shared_memory"}
            else:
                full = funcs
            expect(left == full, "cleanup-others",
                   f"clean-up functions {left}, should be {full}")
        finally:
            for k, v in kept.items():
                setattr(tracker, k, v)
            tracker._CLEANUP_FUNCS.clear()
            tracker._CLEANUP_FUNCS.update(funcs)
            shm_mod.resource_tracker = simshm._NoTracker
        return acts, off


PROGRAM = """
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, {repo!r})
from dustgoggles.codex import memutilz as m
for act in {acts!r}:
    if act == "off":
        m.deactivate_shared_memory_resource_tracker()
    elif act == "make":
        b = m.open_block({name!r}, 4)
        b.buf[:] = b"abcd"
    elif act == "use":
        print(m.fetch_block_bytes({name!r}))
    elif act == "delete":
        m.delete_block({name!r})
"""


class RealTracker(CaseHarness):
    """on real processes: what is left when the process has ended."""
    name = "tracker-real"

    def cases(self, tier):
        # (acts of a first process, acts of a second one, block left?)
        yield ("off", "make"), (), True
        yield ("off", "make"), ("off", "use"), True
        yield ("off", "off", "make", "use"), ("off", "use"), True
        yield ("off", "make"), ("off", "use", "delete"), False
        yield ("off", "make", "delete"), (), False
        yield ("off", "make", "delete", "make"), ("off", "use"), True

    def explore(self, tier, report, jobs=8):
        super().explore(tier, report, jobs)
        report.traces += len(list(self.cases(tier)))

    def run(self, case):
        first, second, left = case
        name = f"mctrack{os.getpid()}"
        path = os.path.join("/dev/shm", name)
        sched.SEQ_SLEEP[0] = None
        try:
            for acts in (first, second):
                if not acts:
                    continue
                out = subprocess.run(
                    [sys.executable, "-B", "-c", PROGRAM.format(
                        repo=loader.REPO, acts=acts, name=name)],
                    capture_output=True, timeout=50)
                expect(out.returncode == 0, "failed",
                       f"{case}: {out.stderr[-400:]!r}")
                expect(not out.stderr.strip(), "complaints",
                       f"{case}: {out.stderr[-400:]!r}")
            expect(there(path) == left, "left",
                   f"{case}: block left is {there(path)}")
            if left:
                expect(open(path, "rb").read() == b"abcd", "contents",
                       f"{case}: {open(path, 'rb').read()!r}")
        finally:
            sched.SEQ_SLEEP[0] = W.LIMIT
            if there(path):
                simshm.REAL_OS["unlink"](path)
        return case, True


def harnesses(tier):
    return [Blocks(), Closure(), Unmerged(), Names(), Switch(),
            RealTracker()]
