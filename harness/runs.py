"""Stand-ins for the process pool, and for what a command line run would start."""
import concurrent.futures
import contextlib
import io
import multiprocessing


class Later:
    def __init__(self, value):
        self.value = value

    def get(self, timeout=None):
        return self.value

    def result(self, timeout=None):
        return self.value

    def wait(self, timeout=None): pass
    def ready(self): return True
    def successful(self): return True


class Executor:
    """concurrent.futures executors"""

    def __init__(self, max_workers=None, *a, **k):
        if max_workers is not None and max_workers < 1:
            raise ValueError("max_workers must be greater than 0")

    def map(self, fn, *jobs, timeout=None, chunksize=1):
        return iter([fn(*j) for j in zip(*jobs)])

    def submit(self, fn, *args, **kwds):
        return Later(fn(*args, **kwds))

    def shutdown(self, *a, **k): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


class Pool:
    """Runs the jobs in this process, in the order they were given."""

    def __init__(self, processes=None, *a, **k):
        if processes is not None and processes < 1:
            raise ValueError("Number of processes must be at least 1")

    def map(self, fn, jobs, chunksize=None):
        return [fn(j) for j in jobs]

    def imap(self, fn, jobs, chunksize=1):
        return iter(self.map(fn, jobs))

    def starmap(self, fn, jobs, chunksize=None):
        return [fn(*j) for j in jobs]

    def imap_unordered(self, fn, jobs, chunksize=1):
        # results may come in any order: last first is as good as any
        return iter(self.map(fn, jobs)[::-1])

    def map_async(self, fn, jobs, chunksize=None, callback=None, error_callback=None):
        return Later(self.map(fn, jobs))

    def starmap_async(self, fn, jobs, chunksize=None, callback=None, error_callback=None):
        return Later(self.starmap(fn, jobs))

    def apply_async(self, fn, args=(), kwds=None, callback=None, error_callback=None):
        return Later(self.apply(fn, args, kwds))

    def apply(self, fn, args=(), kwds=None):
        return fn(*args, **(kwds or {}))

    def close(self): pass
    def join(self): pass
    def terminate(self): pass
    def __enter__(self): return self
    def __exit__(self, *a): return False


@contextlib.contextmanager
def quiet(*modules):
    """No output, no processes."""
    stand = [(multiprocessing, "Pool", Pool),
             (concurrent.futures, "ProcessPoolExecutor", Executor),
             (concurrent.futures, "ThreadPoolExecutor", Executor)]
    held = []
    for owner, name, new in stand:
        real = getattr(owner, name)
        held.append((owner, name, real))
        held += [(m, k, v) for m in modules for k, v in list(vars(m).items()) if v == real]
        for o, k, v in held:
            if v == real:
                setattr(o, k, new)
    out = io.StringIO()
    try:
        with contextlib.redirect_stdout(out):
            yield out
    finally:
        for o, k, v in held:
            setattr(o, k, v)


@contextlib.contextmanager
def replaced(*pairs):
    """pairs: (object, attribute, stand-in)"""
    held = [(o, a, getattr(o, a)) for o, a, _ in pairs]
    for o, a, new in pairs:
        setattr(o, a, new)
    try:
        yield
    finally:
        for o, a, old in held:
            setattr(o, a, old)
