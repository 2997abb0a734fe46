"""shared set-up for checks that run dustgoggles over simulated shared memory."""
import atexit
import random

from . import loader, sched, simshm
from .core import Hang

simshm.install()
sched.install()

_COPIES = {}


class SimExit:
    """per-process atexit registries."""

    def __init__(self):
        self.by_proc = {}
        self.proc = 0

    def who(self):
        p = getattr(sched._LOCAL, "proc", None)
        return self.proc if p is None else p.ix

    def register(self, func, *args, **kwargs):
        self.by_proc.setdefault(self.who(), []).append((func, args, kwargs))
        return func

    def unregister(self, func):
        regs = self.by_proc.get(self.who(), [])
        regs[:] = [r for r in regs if r[0] != func]

    def run(self, proc):
        """what the interpreter does at normal exit of that process."""
        errors = []
        regs = self.by_proc.get(proc, [])
        while regs:
            func, args, kwargs = regs.pop()
            try:
                func(*args, **kwargs)
            except Exception as ex:
                errors.append(ex)
        return errors


EXIT = SimExit()
_REAL_ATEXIT = (atexit.register, atexit.unregister)


def install_atexit():
    atexit.register = lambda f, *a, **k: EXIT.register(f, *a, **k)
    atexit.unregister = lambda f: EXIT.unregister(f)


install_atexit()


def copy(ix, *names):
    """private package copy number ix (loaded once per check process)."""
    names = names or ("codex.implements",)
    key = (ix, names)
    if key not in _COPIES:
        _COPIES[key] = loader.Copy(*names)
    return _COPIES[key]


def reset():
    """fresh shared memory, fresh module-level state, fixed randomness."""
    global EXIT
    simshm.fresh_fs()
    for c in _COPIES.values():
        c.reset()
    EXIT.by_proc.clear()
    EXIT.proc = 0
    random.seed(12345)
    return simshm.FS


class SleepLimit:
    """
    outside the scheduler no other process runs, so a lock that keeps polling
    would poll for ever: turn that into a deterministic Hang.
    """

    def __init__(self, limit=60):
        self.limit = limit
        self.n = 0

    def __call__(self, _seconds):
        self.n += 1
        if self.n > self.limit:
            self.n = 0
            raise Hang("polls for ever: nothing else is running")


LIMIT = SleepLimit()
sched.SEQ_SLEEP[0] = LIMIT
