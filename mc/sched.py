"""
A controlled scheduler for simulated processes, and a systematic explorer.

Each simulated process is a thread that only runs while it holds the baton.
Every observable shared-memory operation (see simshm) is a scheduling point;
time.sleep() inside a simulated process is a visible wait.  The explorer
enumerates schedules by stateless re-execution, depth first, up to a bound on
preemptions (or without bound), pruning schedules that reach a state it has
already expanded with at least as much budget.

State identity: (contents and generation of every linked or still mapped
block, and for every process: the exact sequence of results it has observed so
far -- including which generation of a block it opened -- and whether it is
waiting).
A process is deterministic given what it has observed, so two executions with
equal keys have the same futures.

Waiting: when a process sleeps, it is considered blocked until re-reading what
it read since its last sleep (or last write) would give a different answer.
Failed polling rounds that would observe the same values are thereby merged;
this assumes the number of fruitless polls does not itself change behaviour
(checked separately by the long-wait harness of C04).
"""
import threading
import time as _time

from . import simshm

_REAL_SLEEP = _time.sleep
_LOCAL = threading.local()
HORIZON = 6000        # points in one execution
SPIN_LIMIT = 400      # consecutive points without any write by anyone


class Abort(BaseException):
    """unwinds a simulated process that is being discarded."""


class Killed(BaseException):
    pass


class Nondeterminism(RuntimeError):
    pass


class Proc:
    def __init__(self, ix, body):
        self.ix, self.body = ix, body
        self.sem = threading.Semaphore(0)
        self.done = False
        self.waiting = None      # None or list of (kind, name, result)
        self.reads = []
        self.hist = 0            # hash of the observation history
        self.steps = 0
        self.result = None
        self.error = None
        self.pending = ("start", "")


class Run:
    """one execution under one schedule."""

    def __init__(self, bodies, choose, on_point=None):
        self.procs = [Proc(i, b) for i, b in enumerate(bodies)]
        self.choose = choose
        self.current = None
        self.aborting = False
        self.verdict = None      # "deadlock" / "horizon" / "pruned" / None
        self.finished = threading.Semaphore(0)
        self.points = 0
        self.since_write = 0
        self.trace = []
        self.errors = []
        self.events = []         # harness-level call / return history

    # -- called from simulated processes ----------------------------------
    def hook(self, kind, name):
        me = getattr(_LOCAL, "proc", None)
        if me is None or getattr(_LOCAL, "run", None) is not self:
            return
        if self.aborting:
            raise Abort()
        me.pending = (kind, name)
        self.points += 1
        if self.points > HORIZON:
            self.verdict = "horizon"
            self._abort_all(me)
        if self.since_write > SPIN_LIMIT and me.reads:
            # polling without sleeping: treat it as a wait
            self.since_write = 0
            self._wait(me)
            return
        self.since_write += 1
        self._switch(me)

    def observe(self, kind, name, result):
        me = getattr(_LOCAL, "proc", None)
        if me is None or getattr(_LOCAL, "run", None) is not self:
            return
        key = result
        if kind == "read":
            key = result[1]
        me.hist = hash((me.hist, kind, name, key))
        me.steps += 1
        self.trace.append((me.ix, kind, name, key))
        if kind in ("create", "unlink", "truncate", "write"):
            if kind in ("create", "unlink") and result != "ok":
                me.reads.append((kind, name, result))
            else:
                me.reads = []
                self.since_write = 0
        else:
            me.reads.append((kind, name, result))

    def sleep(self, _delay=0):
        me = _LOCAL.proc
        if self.aborting:
            raise Abort()
        me.pending = ("sleep", "")
        if getattr(self, "interrupt", None) == me.ix:
            self.interrupt = None
            raise KeyboardInterrupt()
        self.points += 1
        if self.points > HORIZON:
            self.verdict = "horizon"
            self._abort_all(me)
        self._wait(me)

    def _wait(self, me):
        me.waiting = me.reads
        me.reads = []
        me.hist = hash((me.hist, "wait"))
        self._switch(me)
        me.waiting = None

    # -- scheduling -------------------------------------------------------
    def _changed(self, reads):
        fs = simshm.FS
        if not reads:
            return True
        for kind, name, result in reads:
            node = fs.names.get(name)
            if kind == "open":
                now = ("ENOENT" if node is None
                       else ("ok", len(node.data), node.gen))
                if now != result:
                    return True
            elif kind == "create":
                if node is None:
                    return True
            elif kind == "unlink":
                if node is not None:
                    return True
            elif kind == "list":
                if tuple(fs.listing()) != result:
                    return True
            elif kind == "read":
                if node is None or node.ident != result[0]:
                    return True
                if bytes(node.data) != result[1]:
                    return True
        return False

    def enabled(self):
        out = []
        for p in self.procs:
            if p.done:
                continue
            if p.waiting is not None and not self._changed(p.waiting):
                continue
            out.append(p)
        return out

    def _switch(self, me):
        """decide who performs the next operation; returns when `me` may."""
        nxt = self._decide(me)
        if nxt is me:
            return
        nxt.sem.release()
        me.sem.acquire()
        if self.aborting:
            raise Abort()

    def _decide(self, me):
        enabled = self.enabled()
        if not enabled:
            self.verdict = "deadlock"
            self._abort_all(me)
        runnable = me in enabled and me.waiting is None
        order = sorted(
            enabled, key=lambda p: (p is not me or not runnable, p.ix)
        )
        try:
            pick = self.choose(self, order, runnable)
        except BaseException as ex:   # machinery failure: surface it
            self.errors.append((-1, ex))
            self.verdict = "machinery"
            self._abort_all(me)
        if pick is None:
            self.verdict = "pruned"
            self._abort_all(me)
        self.current = order[pick]
        return self.current

    def _abort_all(self, me):
        self.aborting = True
        for p in self.procs:
            if p is not me and not p.done:
                p.sem.release()
        if me is not None:
            raise Abort()

    def _main(self, p):
        _LOCAL.proc, _LOCAL.run = p, self
        p.sem.acquire()
        try:
            if not self.aborting:
                try:
                    p.result = p.body(self, p)
                except Abort:
                    pass
                except Exception as ex:
                    p.error = ex
                    self.errors.append((p.ix, ex))
        except Abort:
            pass
        except BaseException as ex:
            p.error = ex
            self.errors.append((p.ix, ex))
        p.done = True
        p.waiting = None
        _LOCAL.proc = _LOCAL.run = None
        if self.aborting:
            self._report_done()
            return
        left = [q for q in self.procs if not q.done]
        if not left:
            self._report_done()
            return
        try:
            enabled = self.enabled()
            if not enabled:
                self.verdict = "deadlock"
                self._abort_all(None)
                self._report_done()
                return
            order = sorted(enabled, key=lambda q: q.ix)
            pick = self.choose(self, order, False)
            if pick is None:
                self.verdict = "pruned"
                self._abort_all(None)
                self._report_done()
                return
            self.current = order[pick]
            self.current.sem.release()
        except BaseException as ex:   # machinery failure: surface it
            self.errors.append((-1, ex))
            self.verdict = "machinery"
            self._abort_all(None)
        self._report_done()

    def _report_done(self):
        self.finished.release()

    def state_key(self):
        fs = simshm.FS
        return (
            tuple(sorted(
                (k, v.gen, bytes(v.data)) for k, v in fs.names.items())),
            # blocks that were unlinked but are still mapped by someone
            tuple(sorted({
                (v.name, v.gen, bytes(v.data)) for v in fs.fds.values()
                if fs.names.get(v.name) is not v})),
            tuple(
                (p.hist, p.done, p.waiting is not None) for p in self.procs
            ),
            tuple(e for e in self.events) if self.events else (),
        )

    def go(self):
        fs = simshm.FS
        fs.hook, fs.observe = self.hook, self.observe
        threads = [
            threading.Thread(target=self._main, args=(p,), daemon=True)
            for p in self.procs
        ]
        for t in threads:
            t.start()
        first = self.choose(self, list(self.procs), False)
        if first is None:
            self.verdict = "pruned"
            self._abort_all(None)
        else:
            self.current = self.procs[first]
            self.current.sem.release()
        for _ in threads:
            if not self.finished.acquire(timeout=120):
                raise TimeoutError("a simulated process did not yield")
        for t in threads:
            t.join(10)
        fs.hook = fs.observe = None
        return self


def _patched_sleep(seconds=0):
    run = getattr(_LOCAL, "run", None)
    if run is not None:
        return run.sleep(seconds)
    hook = SEQ_SLEEP[0]
    if hook is not None:
        return hook(seconds)
    return _REAL_SLEEP(min(seconds, 0.01))


SEQ_SLEEP = [None]     # what time.sleep does outside the scheduler


def install():
    _time.sleep = _patched_sleep


class Explorer:
    """
    depth-first search over schedules.

    setup() -> list of process bodies (fresh state each time);
    check(run) -> None or a failure description, called on complete runs.
    """

    def __init__(self, setup, check, bound=None, shard=(0, 1),
                 max_execs=None, prune=True):
        self.setup, self.check = setup, check
        self.bound = bound
        self.shard, self.shards = shard
        self.max_execs = max_execs
        self.deadline = float("inf")
        self.prune = prune
        self.visited = {}
        self.states = set()
        self.transitions = 0
        self.execs = self.complete = self.pruned = 0
        self.capped = False
        self.outcomes = {}
        self.failures = []
        self.kept = []         # (choices, trace digest) of complete runs
        self.keep = 0
        self.max_depth = 0

    def _run(self, prefix):
        choices, widths, costs = [], [], []
        spent = [0]

        def choose(run, order, runnable):
            i = len(choices)
            if i < len(prefix):
                pick = prefix[i]
                if pick >= len(order):
                    raise Nondeterminism(
                        f"replaying {prefix}: {len(order)} enabled at {i}"
                    )
            else:
                pick = 0
                if self.prune:
                    key = (run.state_key(),
                           run.current.ix if runnable else -1)
                    key = hash(key)
                    self.states.add(key)
                    left = (
                        10 ** 9 if self.bound is None
                        else self.bound - spent[0]
                    )
                    old = self.visited.get(key)
                    if old is not None and old >= left:
                        return None
                    self.visited[key] = left
            choices.append(pick)
            widths.append(len(order))
            costs.append((spent[0], runnable))
            if runnable and pick != 0:
                spent[0] += 1
            return pick

        run = Run(self.setup(), choose)
        run.go()
        for ix, ex in run.errors:
            if ix == -1 or isinstance(ex, Nondeterminism):
                raise ex
        self.execs += 1
        self.transitions += max(0, len(choices) - len(prefix) + 1)
        self.max_depth = max(self.max_depth, len(choices))
        run.choices = choices
        return run, choices, widths, costs

    def replay(self, choices):
        self.prune, prune = False, self.prune
        try:
            return self._run(list(choices))[0]
        finally:
            self.prune = prune

    def explore(self, stop_after=3):
        stack = [[]]
        rootdone = False
        while stack:
            if (self.max_execs and self.execs >= self.max_execs
                    or _time.time() > self.deadline):
                self.capped = True
                break
            prefix = stack.pop()
            run, choices, widths, costs = self._run(prefix)
            if run.verdict == "pruned":
                self.pruned += 1
            else:
                # the root execution belongs to shard 0 alone
                if rootdone or self.shard == 0:
                    self.complete += 1
                    failure = self.check(run)
                    out = run.outcome if hasattr(run, "outcome") else None
                    self.outcomes[out] = self.outcomes.get(out, 0) + 1
                    if self.keep and len(self.kept) < self.keep and (
                            self.complete % 7 == 1):
                        self.kept.append((list(choices), hash(str(run.trace))))
                    if failure is not None:
                        self.failures.append((failure, list(choices), run))
                        if len(self.failures) >= stop_after:
                            break
            more = []
            branch = 0
            for i in range(len(prefix), len(choices)):
                spent, runnable = costs[i]
                if runnable and self.bound is not None:
                    if spent + 1 > self.bound:
                        continue
                for alt in range(1, widths[i]):
                    branch += 1
                    if not rootdone and branch % self.shards != self.shard:
                        continue
                    more.append(choices[:i] + [alt])
            rootdone = True
            # shallow branches last so they are explored first
            stack.extend(reversed(more))
        return self
