"""reports, known findings, parallel workers and the case / history engines."""
import hashlib
import itertools
import json
import os
import pickle
import random
import select
import signal
import sys
import time
import traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
JOBS = int(os.environ.get("MC_JOBS", "8"))


class Violation(Exception):
    """the property is broken. `key` identifies the failing case stably."""

    def __init__(self, key, what):
        super().__init__(f"{key}: {what}")
        self.key, self.what = key, what


class Hang(BaseException):
    """the code under test did not finish."""


class WorkerDied(RuntimeError):
    pass


def from_code(ex):
    """is this exception the doing of the code under test?"""
    from .loader import REPO
    if type(ex).__name__ in ("Mismatch", "Nondeterminism", "WorkerDied"):
        return False
    if isinstance(ex, (AttributeError, KeyError, IndexError, TypeError,
                       ValueError)):
        return True     # if not raised by the code: by what it gave the check
    inside = os.path.join(REPO, "")
    return any(f.filename.startswith(inside)
               for f in traceback.extract_tb(ex.__traceback__))


# when the harness that is being explored should stop, complete or not
SOFT = [float("inf")]
TOTAL = {"quick": 560, "thorough": 820}


def share(left, parts):
    """a fair share of the seconds left, for the first of so many parts."""
    return left * min(1, 3 / (parts + 2))


def late():
    return time.time() > SOFT[0]


def hard(budget):
    """seconds after which workers that don't stop by themselves are ended."""
    return min(budget, max(5, SOFT[0] - time.time()) + 60)


def through_code(ex):
    """did the code under test raise this while a harness prepared itself?"""
    from .loader import REPO
    if isinstance(ex, WorkerDied):
        return len(ex.args) > 1 and ex.args[1]
    inside = os.path.join(REPO, "")
    return type(ex).__name__ not in ("Mismatch", "Nondeterminism") and any(
        f.filename.startswith(inside)
        for f in traceback.extract_tb(ex.__traceback__))


def digest(obj):
    return hashlib.blake2b(
        obj if isinstance(obj, bytes) else repr(obj).encode(
            "utf-8", "backslashreplace"),
        digest_size=8,
    ).hexdigest()


class Report:
    def __init__(self):
        self.evaluations = 0        # executions of the real code
        self.transitions = 0        # operations / scheduling steps executed
        self.states = set()         # digests of distinct states
        self.traces = 0             # traces replayed on the real environment
        self.outcomes = set()       # digests of distinct observed outcomes
        self.nontrivial = set()
        self.samples = []
        self.violations = []        # dicts: key what harness case
        self.parts = {}
        self.notes = []
        self.capped = []

    def merge(self, other):
        self.evaluations += other.evaluations
        self.transitions += other.transitions
        self.states |= other.states
        self.traces += other.traces
        self.outcomes |= other.outcomes
        self.nontrivial |= other.nontrivial
        self.samples = (self.samples + other.samples)[:12]
        self.violations += other.violations
        for k, v in other.parts.items():
            mine = self.parts.setdefault(k, {})
            for kk, vv in v.items():
                if isinstance(vv, (int, float)) and not isinstance(vv, bool):
                    if kk.startswith("max_"):
                        mine[kk] = max(mine.get(kk, 0), vv)
                    else:
                        mine[kk] = mine.get(kk, 0) + vv
                else:
                    mine[kk] = vv
        self.notes += [n for n in other.notes if n not in self.notes]
        self.capped += [n for n in other.capped if n not in self.capped]
        return self

    def part(self, name, **counts):
        mine = self.parts.setdefault(name, {})
        for k, v in counts.items():
            if isinstance(v, (int, float)) and not isinstance(v, bool):
                if k.startswith("max_"):
                    mine[k] = max(mine.get(k, 0), v)
                else:
                    mine[k] = mine.get(k, 0) + v
            else:
                mine[k] = v


# --------------------------------------------------------------------------
# parallel workers


def fork_workers(fn, jobs, timeout):
    """
    run fn(ix) in `jobs` forked children; returns (results, deaths).

    fn returns something picklable.  A child that dies or overruns is reported
    in deaths as (ix, reason, note); note is the last thing it announced.
    """
    kids = {}
    sys.stdout.flush()
    sys.stderr.flush()
    for ix in range(jobs):
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            code = 1
            try:
                os.close(r)
                for other in kids.values():
                    os.close(other["r"])
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                global _ANNOUNCE
                _ANNOUNCE = w
                try:
                    out = ("ok", fn(ix))
                except BaseException as ex:
                    out = ("err", traceback.format_exc(),
                           isinstance(ex, Exception) and through_code(ex))
                blob = pickle.dumps(out)
                os.write(w, b"R" + len(blob).to_bytes(8, "little"))
                view = memoryview(blob)
                while view:
                    n = os.write(w, view[:1 << 16])
                    view = view[n:]
                code = 0
            finally:
                os._exit(code)
        os.close(w)
        kids[ix] = {"pid": pid, "r": r, "buf": bytearray()}
    results, deaths = {}, []
    deadline = time.time() + timeout
    live = dict(kids)
    while live:
        left = deadline - time.time()
        if left <= 0:
            break
        ready, _, _ = select.select(
            [k["r"] for k in live.values()], [], [], min(left, 5))
        for ix, kid in list(live.items()):
            if kid["r"] not in ready:
                continue
            data = os.read(kid["r"], 1 << 20)
            if data:
                kid["buf"] += data
                continue
            os.close(kid["r"])
            _, status = os.waitpid(kid["pid"], 0)
            del live[ix]
            out, note = _parse(kid["buf"])
            if out is None:
                deaths.append((ix, f"worker ended with status {status}", note))
            elif out[0] == "err":
                for other in live.values():
                    os.kill(other["pid"], signal.SIGKILL)
                    os.waitpid(other["pid"], 0)
                raise WorkerDied(*out[1:])
            else:
                results[ix] = out[1]
    for ix, kid in live.items():
        os.kill(kid["pid"], signal.SIGKILL)
        os.waitpid(kid["pid"], 0)
        os.close(kid["r"])
        _, note = _parse(kid["buf"])
        deaths.append((ix, "timeout", note))
    return [results[k] for k in sorted(results)], deaths


_ANNOUNCE = None


def announce(text):
    """tell the parent what is about to run (survives a hard crash)."""
    if _ANNOUNCE is not None:
        raw = text.encode("utf-8", "backslashreplace")[:20000]
        os.write(_ANNOUNCE, b"N" + len(raw).to_bytes(8, "little") + raw)


def _parse(buf):
    pos, note, out = 0, None, None
    while pos + 9 <= len(buf):
        kind = buf[pos:pos + 1]
        size = int.from_bytes(buf[pos + 1:pos + 9], "little")
        body = bytes(buf[pos + 9:pos + 9 + size])
        if len(body) < size:
            break
        if kind == b"N":
            note = body.decode("utf-8", "backslashreplace")
        else:
            out = pickle.loads(body)
        pos += 9 + size
    return out, note


def with_alarm(seconds, fn, *args):
    def ring(*_):
        raise Hang(f"no result after {seconds} s")

    old = signal.signal(signal.SIGALRM, ring)
    signal.setitimer(signal.ITIMER_REAL, seconds)
    try:
        return fn(*args)
    finally:
        signal.setitimer(signal.ITIMER_REAL, 0)
        signal.signal(signal.SIGALRM, old)


# --------------------------------------------------------------------------
# engine: exhaustive enumeration of cases (inputs, configurations, answers)


class CaseHarness:
    """
    enumerate every case of a finite space and judge the real code on each.

    cases(tier) yields repr-able cases (python literals) in a fixed order;
    run(case) returns (outcome, nontrivial) or raises Violation.
    """
    name = "cases"
    timeout = 60          # per case; a case takes milliseconds
    budget = 800          # whole harness
    max_violations = 4

    def cases(self, tier):
        raise NotImplementedError

    def run(self, case):
        raise NotImplementedError

    def prepare(self):
        pass

    def judge(self, case, rep):
        try:
            out = with_alarm(self.timeout, self.run, case)
            outcome, nontrivial = out if isinstance(out, tuple) else (out, True)
        except Violation as v:
            rep.violations.append(dict(
                key=f"{self.name}:{v.key}", what=v.what, harness=self.name,
                case=repr(case)))
            return
        except Hang as h:
            rep.violations.append(dict(
                key=f"{self.name}:hang", what=f"did not terminate: {h}",
                harness=self.name, case=repr(case)))
            return
        except Exception as ex:
            if not from_code(ex):
                raise
            rep.violations.append(dict(
                key=f"{self.name}:raised:{type(ex).__name__}",
                what=f"the code raised {ex!r} for {case!r}",
                harness=self.name, case=repr(case)))
            return
        d = digest(outcome)
        rep.outcomes.add(d)
        if nontrivial:
            rep.nontrivial.add(digest((self.name, repr(case))))

    def explore(self, tier, report, jobs=JOBS):
        self.prepare()
        t0 = time.time()

        def work(ix):
            random.seed(0)
            rep = Report()
            n = 0
            for i, case in enumerate(self.cases(tier)):
                if i % jobs != ix:
                    continue
                if n % 50 == 0 or self.crashy:
                    announce(repr(case))
                if late():
                    rep.capped.append(f"{self.name}: time budget reached")
                    break
                n += 1
                self.judge(case, rep)
                if len(rep.samples) < 1 and n > 3:
                    rep.samples.append(
                        {"harness": self.name, "case": repr(case)[:400]})
                if len(rep.violations) >= self.max_violations:
                    rep.capped.append(
                        f"{self.name}: stopped after violations")
                    break
            rep.evaluations = n
            return rep

        outs, deaths = fork_workers(work, jobs, hard(self.budget))
        mine = Report()
        for rep in outs:
            mine.merge(rep)
        for ix, why, note in deaths:
            if why == "timeout" and mine.violations:
                continue
            mine.violations.append(dict(
                key=f"{self.name}:died", harness=self.name, case=note or "",
                what=f"{why}, near case {note}"))
        mine.part(self.name, cases=mine.evaluations,
                  distinct_outcomes=len(mine.outcomes),
                  wall_s=round(time.time() - t0, 2))
        report.merge(mine)

    crashy = False

    def replay(self, case):
        self.prepare()
        rep = Report()
        self.judge(case, rep)
        return rep.violations


# --------------------------------------------------------------------------
# engine: every operation history up to a depth, optionally merging states


class SeqHarness:
    """
    breadth-first search over operation histories of the real objects.

    world() -> fresh world; ops(tier, world-free) -> list of operations;
    enabled(world, op) -> bool; step(world, op) applies the operation and
    compares with the reference model (raises Violation); audit(world) is an
    additional (possibly destructive) comparison run after each history;
    canon(world) -> hashable state identity, or None to keep all histories.
    """
    name = "histories"
    timeout = 60
    budget = 800
    merge = True
    validate = 0      # histories per depth replayed on the real /dev/shm
    direct = False    # nothing is simulated: every history is a real trace

    def depth(self, tier):
        raise NotImplementedError

    def max_states(self, tier):
        return 10 ** 9

    def world(self):
        raise NotImplementedError

    def ops(self, tier):
        raise NotImplementedError

    def enabled(self, world, op):
        return True

    def step(self, world, op):
        raise NotImplementedError

    def audit(self, world):
        pass

    def canon(self, world):
        return None

    def dispose(self, world):
        pass

    def prepare(self):
        pass

    def play(self, hist):
        """replay a history; returns the world. raises Violation."""
        world = self.world()
        for op in hist:
            self.step(world, op)
        return world

    def attempt(self, hist, op, rep):
        """extend hist by op. returns canon key, or False if not enabled."""

        def go():
            world = self.world()
            try:
                for o in hist:
                    self.step(world, o)
                if not self.enabled(world, op):
                    return False
                self.step(world, op)
                key = self.canon(world)
                key = digest(key) if key is not None else None
                self.audit(world)
                return (key, getattr(world, "outcome", None))
            finally:
                self.dispose(world)

        try:
            return with_alarm(self.timeout, go)
        except Violation as v:
            rep.violations.append(dict(
                key=f"{self.name}:{v.key}", what=v.what, harness=self.name,
                case=repr(list(hist) + [op])))
        except Hang as h:
            rep.violations.append(dict(
                key=f"{self.name}:hang:{op!r}",
                what=f"did not terminate: {h}",
                harness=self.name, case=repr(list(hist) + [op])))
        except Exception as ex:
            if not from_code(ex):
                raise
            rep.violations.append(dict(
                key=f"{self.name}:raised:{type(ex).__name__}",
                what=f"the code raised {ex!r} at {op!r} after {hist!r}",
                harness=self.name, case=repr(list(hist) + [op])))
        return False

    def explore(self, tier, report, jobs=JOBS):
        self.prepare()
        t0 = time.time()
        ops = self.ops(tier)
        frontier = [()]
        seen = set()
        mine = Report()
        max_depth = self.depth(tier)
        cap = self.max_states(tier)
        reached = 0
        deadline = t0 + self.budget
        closed, kept = False, []
        for level in range(1, max_depth + 1):
            if not frontier:
                closed = True
                break
            use = jobs if len(frontier) * len(ops) > 200 else 1
            merge = self.merge

            def work(ix):
                random.seed(0)
                rep = Report()
                nxt, local = [], set()
                for i in range(ix, len(frontier), use):
                    hist = frontier[i]
                    announce(repr(hist))
                    if late():
                        rep.capped.append(
                            f"{self.name}: time budget reached at depth "
                            f"{level}; depth {level - 1} complete")
                        return rep, nxt
                    for op in ops:
                        out = self.attempt(hist, op, rep)
                        if out is False:
                            if len(rep.violations) >= 3:
                                return rep, nxt
                            continue
                        key, outcome = out
                        rep.transitions += 1
                        if outcome is not None:
                            rep.outcomes.add(digest(outcome))
                        if merge and key is not None:
                            if key in seen or key in local:
                                continue
                            local.add(key)
                        nxt.append((key, hist + (op,)))
                return rep, nxt

            outs, deaths = fork_workers(
                work, use, hard(max(5, deadline - time.time())))
            new = []
            for rep, nxt in outs:
                mine.merge(rep)
                for key, hist in nxt:
                    if merge and key is not None and key in seen:
                        continue
                    if key is not None:
                        seen.add(key)
                    new.append(hist)
            for ix, why, note in deaths:
                if why == "timeout":
                    mine.capped.append(
                        f"{self.name}: time budget reached at depth {level}; "
                        f"depth {level - 1} complete")
                    if not outs or time.time() < deadline - 1:
                        pass
                else:
                    mine.violations.append(dict(
                        key=f"{self.name}:died", harness=self.name,
                        case=note or "", what=f"{why} after history {note}"))
            mine.evaluations += len(new)
            reached = level
            if mine.violations or mine.capped:
                break
            if len(seen) > cap:
                mine.capped.append(f"{self.name}: state cap at depth {level}")
                break
            if not mine.samples or level == max_depth:
                mine.samples += [
                    {"harness": self.name, "history": repr(h)[:500]}
                    for h in new[-1:]]
            stride = max(1, len(new) // max(1, self.validate))
            kept = kept[::2] if len(kept) > 4 * self.validate else kept
            kept += new[::stride]
            frontier = new
        else:
            closed = not frontier
        mine.states |= seen
        if self.validate and not mine.violations:
            self.validate_real(kept, mine, jobs)
        if self.direct:
            mine.traces += mine.transitions
        mine.part(self.name, histories=mine.evaluations,
                  states=len(seen), transitions=mine.transitions,
                  max_depth=reached, closed=closed,
                  distinct_outcomes=len(mine.outcomes),
                  wall_s=round(time.time() - t0, 2))
        report.merge(mine)

    def validate_real(self, hists, mine, jobs):
        """replay histories in lockstep with the real /dev/shm."""
        from . import simshm

        def work(ix):
            rep = Report()
            for hist in hists[ix::jobs]:
                announce(repr(hist))
                if late():
                    break
                simshm.set_dual(True)
                self.attempt(hist[:-1], hist[-1], rep)
                rep.traces += 1
            simshm.set_dual(False)
            return rep

        outs, deaths = fork_workers(work, jobs, 300)
        for rep in outs:
            mine.merge(rep)
        if deaths:
            raise WorkerDied(f"real-environment replay: {deaths}")

    def replay(self, case):
        self.prepare()
        rep = Report()
        self.attempt(tuple(case[:-1]), case[-1], rep)
        return rep.violations


# --------------------------------------------------------------------------
# engine: every schedule of a concurrent scenario up to a preemption bound


class SchedHarness:
    """
    scenarios(tier) -> list of (name, args, bound); build(args) -> bodies with
    fresh state; check(args, run) -> None or (key, what); sets run.outcome.
    """
    name = "schedules"
    budget = 800
    prune = True
    validate = 4      # schedules per scenario and worker replayed for real

    def scenarios(self, tier):
        raise NotImplementedError

    def build(self, args):
        raise NotImplementedError

    def check(self, args, run):
        raise NotImplementedError

    def prepare(self):
        pass

    def explore(self, tier, report, jobs=JOBS):
        from . import sched, simshm
        self.prepare()
        t0 = time.time()
        scen = self.scenarios(tier)
        # every scenario is split into `jobs` shards of its first branching
        tasks = [(i, s) for i in range(len(scen)) for s in range(jobs)]

        def work(ix):
            rep = Report()
            for i, s in tasks:
                if s != ix:
                    continue
                name, args, bound = scen[i]
                if late():
                    rep.capped.append(
                        f"{self.name}: no time left for {name}")
                    continue
                announce(repr((name, args)))
                ex = sched.Explorer(
                    lambda: self.build(args),
                    lambda run: self.check(args, run),
                    bound=bound, shard=((s + i) % jobs, jobs),
                    prune=self.prune,
                )
                ex.keep = self.validate
                ex.deadline = time.time() + share(
                    SOFT[0] - time.time(), len(scen) - i)
                ex.explore()
                if ex.capped:
                    rep.capped.append(
                        f"{self.name}: time budget reached in {name}")
                if ex.kept and not ex.failures:
                    # the same schedules, in lockstep with the real /dev/shm
                    simshm.set_dual(True)
                    for choices, want in ex.kept:
                        run = ex.replay(choices)
                        if hash(str(run.trace)) != want:
                            raise sched.Nondeterminism(
                                f"schedule {choices} diverged on replay")
                        self.check(args, run)
                        rep.traces += 1
                    simshm.set_dual(False)
                rep.evaluations += ex.execs
                rep.transitions += ex.transitions
                rep.states |= {digest((self.name, name, k))
                               for k in ex.states}
                rep.outcomes |= {digest((self.name, name, o))
                                 for o in ex.outcomes if o is not None}
                rep.part(f"{self.name}/{name}",
                         executions=ex.execs, complete=ex.complete,
                         transitions=ex.transitions,
                         max_points=ex.max_depth,
                         preemption_bound=(
                             "none" if bound is None else str(bound)))
                for (key, what), choices, run in ex.failures:
                    rep.violations.append(dict(
                        key=f"{self.name}/{name}:{key}", what=what,
                        harness=self.name,
                        case=repr((name, args, choices))))
                if ex.complete and len(rep.samples) < 1:
                    rep.samples.append({
                        "harness": self.name, "scenario": name,
                        "outcomes": [repr(o)[:300]
                                     for o in list(ex.outcomes)[:3]]})
            return rep

        outs, deaths = fork_workers(work, jobs, hard(self.budget))
        mine = Report()
        for rep in outs:
            mine.merge(rep)
        for name, args, bound in scen:
            part = mine.parts.get(f"{self.name}/{name}")
            if part is not None:
                part["distinct_states"] = None
        for ix, why, note in deaths:
            if why == "timeout":
                mine.capped.append(
                    f"{self.name}: time budget reached in {note}")
            else:
                raise WorkerDied(f"{why} in {note}")
        for p in mine.parts.values():
            p.pop("distinct_states", None)
        mine.part(self.name, wall_s=round(time.time() - t0, 2),
                  distinct_outcomes=len(mine.outcomes))
        report.merge(mine)

    def replay(self, case):
        from . import sched
        self.prepare()
        name, args, choices = case
        ex = sched.Explorer(
            lambda: self.build(args), lambda run: self.check(args, run))
        run = ex.replay(choices)
        again = ex.replay(choices)
        assert run.trace == again.trace, "replay diverged"
        failure = self.check(args, run)
        for step in run.trace:
            print("   ", step)
        if failure is None:
            return []
        return [dict(key=f"{self.name}/{name}:{failure[0]}", what=failure[1],
                     harness=self.name, case=repr(case))]


# --------------------------------------------------------------------------
# known findings


def known_findings(prop):
    out = {}
    path = os.path.join(VERIF, "known_findings.txt")
    if not os.path.exists(path):
        return out
    for line in open(path, encoding="utf-8"):
        line = line.strip()
        if not line.startswith("known: "):
            continue
        fields = line[len("known: "):].split(" ", 2)
        if fields[0] != f"property={prop}":
            continue
        assert fields[1].startswith("key="), line
        out[fields[1][4:]] = fields[2] if len(fields) > 2 else ""
    return out


def product(*a, **k):
    return itertools.product(*a, **k)
