"""
simulated child processes and the pipes between them, and every schedule.

Each process is a thread that runs only while it holds the baton; operations
on pipes and processes are scheduling points. A pipe holds CAPACITY bytes in
either direction: sending more than fits blocks, as for real ones. Ends of
pipes are inherited by children, and are closed for good when nobody has them
open any more.
"""
import itertools
import multiprocessing
import multiprocessing.connection
import multiprocessing.context
import pickle
import threading

CAPACITY = 4096
HORIZON = 3000
_LOCAL = threading.local()


class Abort(BaseException):
    pass


class Proc:
    def __init__(self, name):
        self.name, self.child = name, False
        self.sem = threading.Semaphore(0)
        self.done = self.started = False
        self.ready = None       # None or a condition it waits for
        self.timed = False
        self.code = None
        self.hist = ()


class World:
    """one execution; `choose(options)` picks who goes on. All that is run by
    `go` are threads of one process."""
    current = None

    def __init__(self, choose):
        self.choose, self.procs, self.verdict = choose, [], None
        self.channels, self.points = [], 0
        self.aborting, self.finished = False, threading.Semaphore(0)
        self.threads = []

    def me(self):
        return getattr(_LOCAL, "proc", None)

    def owner(self):
        """the process that we are a thread of."""
        me = self.me()
        return me if me is not None and me.child else None

    # -- scheduling --------------------------------------------------------
    def enabled(self):
        alive = [p for p in self.procs if p.started and not p.done]
        now = [p for p in alive if p.ready is None or p.ready()]
        return now or [p for p in alive if p.timed]

    def pick(self):
        self.points += 1
        if self.points > HORIZON:
            self.verdict = "endless"
            return None
        options = self.enabled()
        if not options:
            self.verdict = "deadlock"
            return None
        # processes are deterministic, given what they have observed
        key = hash((tuple((p.hist, p.started, p.done, p.ready is None)
                          for p in self.procs),
                    tuple(c.data for c in self.channels)))
        ix = self.choose(len(options), key)
        if ix is None:
            self.verdict = "pruned"
            return None
        return options[ix]

    def abort(self, me=None):
        self.aborting = True
        for p in self.procs:
            if p is not me and p.started and not p.done:
                p.sem.release()

    def point(self, label, ready=None, timed=False):
        """wait until `ready`, or for our turn; False if time has passed."""
        me = self.me()
        if me is None:
            return True
        if self.aborting:
            raise Abort()
        me.hist += (label,)
        me.ready, me.timed = ready, timed
        nxt = self.pick()
        if nxt is None:
            self.abort(me)
            raise Abort()
        if nxt is not me:
            nxt.sem.release()
            me.sem.acquire()
            if self.aborting:
                raise Abort()
        me.ready, me.timed = None, False
        there = ready is None or ready()
        me.hist += (there,)
        return there

    def spawn(self, proc, body):
        def main():
            _LOCAL.proc = proc
            proc.sem.acquire()
            try:
                if not self.aborting:
                    proc.result = body()
                    proc.code = 0
            except Abort:
                pass
            except SystemExit as ex:
                proc.code = ex.code if isinstance(ex.code, int) else 1
                proc.error = ex
            except BaseException as ex:
                proc.code, proc.error = 1, ex
            proc.done = True
            for channel in self.channels:
                channel.dropped(proc)
            if not self.aborting:
                if any(p.started and not p.done for p in self.procs):
                    nxt = self.pick()
                    if nxt is None:
                        self.abort()
                    else:
                        nxt.sem.release()
            self.finished.release()
        proc.started = True
        proc.result = proc.error = None
        thread = threading.Thread(target=main, daemon=True)
        self.threads.append(thread)
        thread.start()

    def go(self, bodies):
        for i, body in enumerate(bodies):
            proc = Proc(f"main {i}")
            self.procs.append(proc)
            self.spawn(proc, body)
        mains = list(self.procs)
        nxt = self.pick()
        nxt.sem.release()
        done = 0
        while done < len(self.threads):
            if not self.finished.acquire(timeout=60):
                raise TimeoutError("a simulated process did not yield")
            done += 1
        for thread in self.threads:
            thread.join(10)
        World.current = None
        return mains


class Channel:
    """one direction of a pipe."""

    def __init__(self, world):
        self.world = world
        self.data, self.sizes = b"", []
        self.readers = {world.owner()}
        self.writers = {world.owner()}
        world.channels.append(self)

    def dropped(self, proc):
        self.readers.discard(proc)
        self.writers.discard(proc)

    def inherited(self, parent, child):
        for ends in (self.readers, self.writers):
            if parent in ends:
                ends.add(child)


class Connection:
    def __init__(self, world, incoming, outgoing):
        self.world, self.incoming, self.outgoing = world, incoming, outgoing
        self.shut = set()

    readable = property(lambda self: self.incoming is not None)
    writable = property(lambda self: self.outgoing is not None)

    @property
    def closed(self):
        return self.world.owner() in self.shut

    def _check(self, end):
        if self.closed:
            raise OSError("handle is closed")
        if end is None:
            raise OSError("connection is not open that way")

    def close(self):
        me = self.world.owner()
        self.shut.add(me)
        if self.incoming is not None:
            self.incoming.readers.discard(me)
        if self.outgoing is not None:
            self.outgoing.writers.discard(me)
        self.world.point("close")

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.close()

    def send(self, obj):
        self.send_bytes(pickle.dumps(obj))

    def send_bytes(self, data):
        out = self.outgoing
        self._check(out)
        left = len(data).to_bytes(4, "little") + bytes(data)
        while left:
            self.world.point("send", lambda: len(out.data) < CAPACITY
                             or not out.readers)
            if not out.readers:
                raise BrokenPipeError("nobody reads")
            fits = CAPACITY - len(out.data)
            out.data, left = out.data + left[:fits], left[fits:]
        self.world.point("sent")

    def _take(self, n):
        inc, got = self.incoming, b""
        while len(got) < n:
            self.world.point("recv", lambda: inc.data or not inc.writers)
            if not inc.data:
                raise EOFError
            part = inc.data[:n - len(got)]
            inc.data = inc.data[len(part):]
            got += part
        return got

    def recv_bytes(self, maxlength=None):
        self._check(self.incoming)
        size = int.from_bytes(self._take(4), "little")
        return self._take(size)

    def recv(self):
        return pickle.loads(self.recv_bytes())

    def poll(self, timeout=0.0):
        inc = self.incoming
        self._check(inc)

        def there():
            return bool(inc.data) or not inc.writers
        if timeout == 0:
            self.world.point("poll")
            return there()
        return self.world.point("poll", there, timeout is not None)


def Pipe(duplex=True):
    world = World.current
    one = Channel(world)
    if not duplex:
        return Connection(world, one, None), Connection(world, None, one)
    two = Channel(world)
    return Connection(world, one, two), Connection(world, two, one)


class Process:
    counter = itertools.count(1)

    def __init__(self, group=None, target=None, name=None, args=(),
                 kwargs={}, *, daemon=None):
        self._target, self._args = target, tuple(args)
        self._kwargs = dict(kwargs)
        self.name, self.daemon = name or "child", bool(daemon)
        self._proc, self._closed = None, False
        self._ix = next(Process.counter)

    def run(self):
        if self._target:
            self._target(*self._args, **self._kwargs)

    def _usable(self):
        if self._closed:
            raise ValueError("process object is closed")

    def start(self):
        self._usable()
        assert self._proc is None, "cannot start a process twice"
        world = World.current
        self._proc = Proc(self.name)
        self._proc.child = True
        world.procs.append(self._proc)
        for channel in world.channels:
            channel.inherited(world.owner(), self._proc)
        world.spawn(self._proc, self.run)
        world.point("start")

    def join(self, timeout=None):
        self._usable()
        assert self._proc is not None, "can only join a started process"
        World.current.point("join", lambda: self._proc.done,
                            timeout is not None)

    def is_alive(self):
        self._usable()
        if self._proc is None:
            return False
        World.current.point("alive")
        return not self._proc.done

    @property
    def exitcode(self):
        self._usable()
        return self._proc and self._proc.code

    @property
    def pid(self):
        self._usable()
        return self._proc and 100000 + self._ix

    ident = pid

    def close(self):
        if self._proc is not None and not self._proc.done:
            raise ValueError("Cannot close a process while it is still "
                             "running.")
        self._closed = True


class installed:
    """pipes and processes are simulated inside, however they are made."""

    def __init__(self, module):
        self.module = module

    def __enter__(self):
        new = {"Pipe": Pipe, "Process": Process}
        base = multiprocessing.context.BaseContext
        self.old = []
        for name, value in new.items():
            real = [getattr(multiprocessing, name)]
            if name == "Pipe":
                real += [multiprocessing.connection.Pipe]
            spots = [(multiprocessing, name)] + [
                (self.module, k) for k, v in vars(self.module).items()
                if any(v == r for r in real)]
            if name == "Pipe":
                spots += [(multiprocessing.connection, name)]
            for owner, attr in spots:
                self.old.append((owner, attr, getattr(owner, attr)))
                setattr(owner, attr, value)
        self.old.append((base, "Pipe", base.Pipe))
        base.Pipe = staticmethod(Pipe)
        for context in (multiprocessing.context.ForkContext,
                        multiprocessing.context.DefaultContext):
            self.old.append((context, "Process", context.Process))
            context.Process = Process
        return self

    def __exit__(self, *_):
        for owner, attr, value in reversed(self.old):
            setattr(owner, attr, value)


def schedules(bodies, limit=50000):
    """yields (choices, world, main processes) of every execution."""
    stack, visited = [[]], set()
    count = 0
    while stack:
        prefix = stack.pop()
        choices, widths = [], []

        def choose(n, key):
            i = len(choices)
            if i >= len(prefix):
                if key in visited:
                    return None
                visited.add(key)
            choices.append(prefix[i] if i < len(prefix) else 0)
            widths.append(n)
            return choices[-1]

        world = World.current = World(choose)
        mains = world.go(bodies())
        count += 1
        yield choices, world, mains
        for i in range(len(prefix), len(choices)):
            for alt in range(1, widths[i]):
                stack.append(choices[:i] + [alt])
        if count >= limit:
            raise RuntimeError("more schedules than expected")
