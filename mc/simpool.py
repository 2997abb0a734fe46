"""
a deterministic stand-in for multiprocessing's worker pools.

Tasks are pickled as they are submitted, run in this process, and their
results pickled back.  Workers take tasks in order, so with k workers one of
the k oldest unfinished tasks finishes next: which one is decided by whoever
explores (`Pool.finish(j)`), or the oldest one if nobody does.
"""
import multiprocessing.pool as mpp
import pickle

from .core import Hang

POOLS = []


class Result:
    def __init__(self, pool, callback=None, error_callback=None):
        self.pool, self.done, self.ok, self.value = pool, False, None, None
        self.callbacks = callback, error_callback

    def settle(self, ok, value):
        self.done, self.ok, self.value = True, ok, value
        call = self.callbacks[0 if ok else 1]
        if call is not None:
            call(value)

    def ready(self):
        return self.done

    def successful(self):
        if not self.done:
            raise ValueError(f"{self!r} not ready")
        return self.ok

    def wait(self, timeout=None):
        while not self.done:
            if not self.pool.finish(0):
                raise Hang("waits for a call that will never finish")

    def get(self, timeout=None):
        self.wait(timeout)
        if self.ok:
            return self.value
        raise self.value


def run_star(func, argtuples):
    return [func(*args) for args in argtuples]


class Pool:
    def __init__(self, processes=None, initializer=None, initargs=(),
                 maxtasksperchild=None, context=None):
        if processes is None:
            processes = 2
        if processes < 1:
            raise ValueError("Number of processes must be at least 1")
        self.width, self.queue, self.state = processes, [], "run"
        self.dead = False
        POOLS.append(self)
        if initializer is not None:
            initializer(*initargs)

    def apply_async(self, func, args=(), kwds={}, callback=None,
                    error_callback=None):
        if self.state != "run":
            raise ValueError("Pool not running")
        result = Result(self, callback, error_callback)
        try:
            task = pickle.dumps((func, tuple(args), dict(kwds)))
        except Exception as ex:
            task = ex
        self.queue.append((task, result))
        return result

    def finish(self, j):
        """the j-th of the calls that run now returns; False if none."""
        if self.dead or j >= min(self.width, len(self.queue)):
            return False
        task, result = self.queue.pop(j)
        if isinstance(task, Exception):
            result.settle(False, task)
            return True
        try:
            func, args, kwds = pickle.loads(task)
            ok, value = True, func(*args, **kwds)
        except Exception as ex:
            ok, value = False, ex
        try:
            value = pickle.dumps(value)
        except Exception as ex:
            value = pickle.dumps(mpp.MaybeEncodingError(ex, value))
            ok = False
        try:
            result.settle(ok, pickle.loads(value))
        except Exception:
            self.dead = True  # as the thread is that receives results
            return False
        return True

    def running(self):
        return min(self.width, len(self.queue))

    def apply(self, func, args=(), kwds={}):
        return self.apply_async(func, args, kwds).get()

    def starmap_async(self, func, iterable, chunksize=None, callback=None,
                      error_callback=None):
        return self.apply_async(run_star, (func, [tuple(a) for a in iterable]),
                                {}, callback, error_callback)

    def starmap(self, func, iterable, chunksize=None):
        return self.starmap_async(func, iterable).get()

    def map_async(self, func, iterable, chunksize=None, callback=None,
                  error_callback=None):
        return self.starmap_async(func, [(x,) for x in iterable], chunksize,
                                  callback, error_callback)

    def map(self, func, iterable, chunksize=None):
        return self.map_async(func, iterable).get()

    def imap(self, func, iterable, chunksize=1):
        results = [self.apply_async(func, (x,)) for x in iterable]
        return (r.get() for r in results)

    imap_unordered = imap

    def close(self):
        if self.state == "run":
            self.state = "close"

    def join(self):
        if self.state == "run":
            raise ValueError("Pool is still running")
        if self.state == "close":
            while self.finish(0):
                pass

    def terminate(self):
        self.state = "terminate"
        self.queue.clear()

    def __enter__(self):
        return self

    def __exit__(self, *_):
        self.terminate()


class installed:
    """worker pools are simulated inside of this, however they are made."""

    def __init__(self, *modules):
        self.modules = modules

    def __enter__(self):
        POOLS.clear()
        self.real = mpp.Pool
        self.old = [(mpp, "Pool", mpp.Pool)]
        for m in self.modules:
            # a module may have imported the class itself
            self.old += [(m, n, v) for n, v in vars(m).items()
                         if v is self.real]
        for m, n, _ in self.old:
            setattr(m, n, Pool)
        return self

    def __exit__(self, *_):
        for m, n, v in self.old:
            setattr(m, n, v)
