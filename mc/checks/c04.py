"""C04: the shared-memory lock excludes, never deadlocks, leaves nothing."""
import itertools

from .. import world as W
from .. import sched, simshm
from ..core import CaseHarness, SchedHarness, Violation
from ..judge import expect

LEVEL = "model_checking"
RULE = ("every schedule (up to the stated preemption bound, or unbounded) of "
        "2-3 simulated processes that take the real SlidingLock around a "
        "read-modify-write critical section")
ASSUMPTIONS = [
    "each shared-memory system call and each buffer access is atomic",
    "fruitless polls are merged (see sched.py); a long-wait run bounds that",
]

DEBUG = [False]         # C12 sets it


def lock_class(ix):
    return W.copy(ix)["codex.implements"].SlidingLock


def critical(run, proc):
    """a critical section with a lost-update window inside."""
    fs = simshm.FS
    run.inside.append(proc.ix)
    run.entries.append(proc.ix)
    if len(run.inside) > 1:
        run.overlap.append(tuple(run.inside))
    before = run.counter
    fs.point("touch", "critical")
    fs.seen("touch", "critical", before)
    run.counter = before + 1
    run.inside.remove(proc.ix)


def init(run):
    if not hasattr(run, "inside"):
        run.inside, run.overlap, run.entries = [], [], []
        run.counter = 0
        run.gaveup = 0


def plain(rounds):
    def body(run, proc):
        init(run)
        for _ in range(rounds):
            with lock_class(proc.ix)("L", DEBUG[0]):
                critical(run, proc)
        return "done"
    return body


def reuse(rounds):
    """one lock object used for several rounds."""
    def body(run, proc):
        init(run)
        lock = lock_class(proc.ix)("L", DEBUG[0])
        for _ in range(rounds):
            with lock:
                critical(run, proc)
        return "done"
    return body


class Boom(Exception):
    pass


class Bang(BaseException):
    pass


def raising(rounds, kinds=(Boom,)):
    """the critical section raises; the lock must be let go."""
    def body(run, proc):
        init(run)
        for i in range(rounds):
            kind = kinds[i % len(kinds)]
            try:
                with lock_class(proc.ix)("L", DEBUG[0]):
                    critical(run, proc)
                    raise kind()
            except kind:
                pass
            else:
                raise AssertionError("exception swallowed by the lock")
        return "done"
    return body


def leaving(rounds):
    """as raising, by exceptions that are no Exception."""
    return raising(rounds, (KeyboardInterrupt, SystemExit, GeneratorExit,
                            Bang))


def returning(rounds):
    """the critical section is left by return, continue and break."""
    def one(run, proc, how):
        for _ in range(1):
            with lock_class(proc.ix)("L", DEBUG[0]):
                critical(run, proc)
                if how == 0:
                    return
                if how == 1:
                    continue
                break

    def body(run, proc):
        init(run)
        for i in range(rounds):
            one(run, proc, i % 3)
        return "done"
    return body


def timeout(spins):
    """gives up after `spins` fruitless polls; that must harm nobody."""
    def body(run, proc):
        init(run)
        lock = lock_class(proc.ix)("L", DEBUG[0])
        lock.max_spins = spins
        try:
            with lock:
                critical(run, proc)
        except TimeoutError:
            run.gaveup += 1
            return "gave up"
        return "done"
    return body


def interrupted(_):
    """a KeyboardInterrupt arrives at the first wait."""
    def body(run, proc):
        init(run)
        run.interrupt = proc.ix
        try:
            with lock_class(proc.ix)("L", DEBUG[0]):
                critical(run, proc)
        except KeyboardInterrupt:
            run.gaveup += 1
            return "gave up"
        return "done"
    return body


KINDS = dict(plain=plain, reuse=reuse, raising=raising, timeout=timeout,
             interrupted=interrupted, leaving=leaving, returning=returning)


class Mutex(SchedHarness):
    name = "mutex"

    def scenarios(self, tier):
        two = [
            ("2 processes, 1 round", (("plain", 1), ("plain", 1)), None),
            ("2 processes, 2 rounds", (("plain", 2), ("plain", 2)),
             3 if tier == "quick" else None),
            ("2 processes, lock object reused",
             (("reuse", 2), ("reuse", 2)), 3 if tier == "quick" else None),
            ("raising critical section",
             (("raising", 1), ("plain", 2)), 4),
            ("critical section left by BaseExceptions",
             (("leaving", 4), ("plain", 1)), 2),
            ("critical section left by return, continue, break",
             (("returning", 3), ("plain", 1)), 2),
            ("waiter times out",
             (("timeout", 0), ("plain", 1), ("plain", 1)), 2),
            ("waiter interrupted",
             (("interrupted", 0), ("plain", 1), ("plain", 1)), 2),
            ("3 processes, 1 round", (("plain", 1),) * 3,
             2 if tier == "quick" else 5),
            ("3 processes, mixed rounds",
             (("plain", 2), ("plain", 1), ("plain", 1)),
             2 if tier == "quick" else 4),
        ]
        if tier == "thorough":
            two += [
                ("3 processes, 2 rounds", (("plain", 2),) * 3, 3),
                ("4 processes, 1 round", (("plain", 1),) * 4, 3),
                ("waiter times out late",
                 (("timeout", 1), ("plain", 2), ("plain", 1)), 3),
            ]
        return two

    def build(self, args):
        W.reset()
        for i in range(len(args)):
            W.copy(i).reset()
        return [KINDS[kind](arg) for kind, arg in args]

    def check(self, args, run):
        if run.verdict == "deadlock":
            stuck = [(p.ix, p.pending, p.waiting) for p in run.procs
                     if not p.result]
            return ("deadlock", f"no process can proceed: {stuck}, "
                                f"blocks {simshm.FS.listing()}")
        if run.verdict == "horizon":
            return ("livelock", "no completion within the step horizon")
        if run.errors:
            ix, ex = run.errors[0]
            return (f"error:{type(ex).__name__}",
                    f"process {ix} failed: {ex!r}")
        run.outcome = (tuple(run.entries), run.gaveup)
        if run.overlap:
            return ("overlap", f"processes {run.overlap[0]} were inside the "
                               "critical section together")
        want = sum(1 if kind in ("timeout", "interrupted") else n
                   for kind, n in args) - run.gaveup
        if run.counter != want:
            return ("lost-update",
                    f"{want} critical sections counted {run.counter}")
        # a newcomer must be able to take the lock at once
        W.LIMIT.n = 0
        before = simshm.FS.snapshot()
        try:
            with lock_class(0)("L", DEBUG[0]):
                pass
        except BaseException as ex:
            return ("unusable", f"lock unusable afterwards: {ex!r}; "
                                f"blocks {sorted(before)}")
        return None


class LongWait(SchedHarness):
    """a waiter polls thousands of times while the holder is stalled."""
    name = "long-wait"

    def scenarios(self, tier):
        return [("holder stalled", (3000 if tier == "quick" else 50000,), 0)]

    def explore(self, tier, report, jobs=1):
        from ..core import Report, Hang, announce
        rep = Report()
        for name, args, bound in self.scenarios(tier):
            bad = self.once(args[0])
            rep.evaluations += 1
            rep.transitions += args[0]
            rep.part(self.name, polls=args[0])
            if bad:
                rep.violations.append(dict(
                    key=f"{self.name}:{bad[0]}", what=bad[1],
                    harness=self.name, case=repr((name, args, []))))
        report.merge(rep)

    def once(self, polls):
        from ..core import Hang

        class Enough(BaseException):
            pass

        W.reset()
        holder = lock_class(0)("L", DEBUG[0])
        holder.__enter__()
        count = [0]

        def sleeper(_s):
            count[0] += 1
            if count[0] > polls:
                raise Enough()

        old, sched.SEQ_SLEEP[0] = sched.SEQ_SLEEP[0], sleeper
        limit = [0]

        def hook(kind, name):
            limit[0] += 1
            if limit[0] > polls * 20:
                raise Enough()

        simshm.FS.hook = hook
        try:
            try:
                lock_class(1)("L", DEBUG[0]).__enter__()
            except Enough:
                return None
            except Exception as ex:
                return ("error", f"the waiter failed while waiting: {ex!r}")
            return ("overlap", f"a waiter got in after {count[0]} polls while "
                               "the lock was held")
        finally:
            simshm.FS.hook = None
            sched.SEQ_SLEEP[0] = old

    def replay(self, case):
        bad = self.once(case[1][0])
        return [] if not bad else [dict(
            key=f"{self.name}:{bad[0]}", what=bad[1])]


class Many(CaseHarness):
    """a lock is taken more often than there are two-byte numbers."""
    name = "many"
    timeout = 400

    def cases(self, tier):
        n = 66000 if tier == "quick" else 140000
        return [(n, 1), (n, 3)]

    def run(self, case):
        n, handles = case
        W.reset()
        locks = [lock_class(0)("L", DEBUG[0]) for _ in range(handles)]
        blocks = set(simshm.FS.names)
        for i in range(n):
            try:
                with locks[i % handles]:
                    pass
            except Exception as ex:
                raise Violation("error", f"taking it for time {i + 1} by one of "
                             f"{handles} handles: {ex!r}")
            if i < 3 or i % 1000 == 0:
                expect(set(simshm.FS.names) == blocks, "blocks",
                       f"after taking it {i + 1} times there are "
                       f"{sorted(simshm.FS.names)}, were {sorted(blocks)}")
        return "taken", True


class Limits(CaseHarness):
    """histories of a lock object with a limit on its waits, that is held by
    another when it is taken, and let go after some waits (or not at all)."""
    name = "limits"
    LIMITS = 0, 1, 3

    def cases(self, tier):
        rounds = 2 if tier == "quick" else 4
        for limit in self.LIMITS:
            menu = [None, 0, "free", limit]
            if limit > 1:
                menu.insert(2, 1)
            menu = list(dict.fromkeys(menu))
            for n in range(1, rounds + 1):
                for steps in itertools.product(menu, repeat=n):
                    yield limit, steps

    def run(self, case):
        limit, steps = case
        W.reset()
        waiter = lock_class(1)("L", DEBUG[0])
        waiter.max_spins = limit
        outcomes = []
        for step in steps:
            outcomes.append(self.take(waiter, limit, step))
        with lock_class(0)("L", DEBUG[0]):
            pass
        expect(all(block.endswith("_count") for block in simshm.FS.listing()),
               "left", lambda: f"left behind: {simshm.FS.listing()}")
        # done with for good; whoever wants it then finds it free
        waiter.close()
        expect(outcomes[-1] != "in" or not simshm.FS.listing(), "closed",
               lambda: f"left by close(): {simshm.FS.listing()}")
        with lock_class(0)("L", DEBUG[0]):
            pass
        return tuple(outcomes), True

    def take(self, waiter, limit, step):
        """`step`: when the other lets go (None: after the waiter is done)."""
        other = None
        count, inside = [0], []

        def sleeper(_s):
            count[0] += 1
            if count[0] > limit + 20:
                raise Enough()
            if count[0] == step:
                leave()

        def leave():
            inside.clear()
            other.__exit__(None, None, None)

        if step != "free":
            other = lock_class(0)("L", DEBUG[0])
            other.__enter__()
            inside.append(0)
            if step == 0:
                leave()
        old, sched.SEQ_SLEEP[0] = sched.SEQ_SLEEP[0], sleeper
        polls = [0]

        def hook(kind, name):
            polls[0] += 1
            if polls[0] > 2000:
                raise Enough()

        simshm.FS.hook = hook
        try:
            with waiter:
                expect(not inside, "overlap", "two are inside")
                outcome = "in"
        except TimeoutError:
            outcome = "gave up"
        except Enough:
            outcome = "never gave up"
        finally:
            simshm.FS.hook = None
            sched.SEQ_SLEEP[0] = old
        if inside:
            leave()
        if step is None:
            expect(outcome == "gave up" and count[0] <= limit + 1, "limit",
                   lambda: f"may wait {limit} times, waited {count[0]} times "
                           f"and {outcome}")
        else:
            expect(outcome == "in", "too-early",
                   lambda: f"may wait {limit} times, the lock was let go "
                           f"after {step}, but it {outcome} after {count[0]}")
        return outcome


class Enough(BaseException):
    pass


def harnesses(tier):
    return [Mutex(), LongWait(), Many(), Limits()]
