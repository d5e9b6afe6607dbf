"""
Stand-in for concurrent.futures.  ProcessPoolExecutor runs the functions in
the current process, on pickled copies of the arguments and results as a real
pool of processes would; WHEN a submitted call runs and in WHICH ORDER the
futures complete is decided by the harness through SCHEDULE, a list of
integers: each time something waits, the next integer picks (modulo the number
of pending futures) which one completes.  SCHEDULE empty = submission order.
"""
import cPickle
import sys

FIRST_COMPLETED, FIRST_EXCEPTION, ALL_COMPLETED = (
    'FIRST_COMPLETED', 'FIRST_EXCEPTION', 'ALL_COMPLETED')
SCHEDULE = []
LOG = []        # what happened: ('submit', n), ('run', n)


class Error(Exception):
    pass


class CancelledError(Error):
    pass


class TimeoutError(Error):
    pass


def _next(n):
    return (SCHEDULE.pop(0) if SCHEDULE else 0) % n


class Future(object):
    _count = 0

    def __init__(self, data=None):
        self._data = data
        self._done = False
        self._exc = None
        self._res = None
        self._cbs = []
        self._cancelled = False
        Future._count += 1
        self._n = Future._count

    def _run(self):
        if self._done or self._cancelled:
            return
        LOG.append(('run', self._n))
        try:
            fn, args, kw = cPickle.loads(self._data)
            res = fn(*args, **kw)
            self._res = cPickle.loads(cPickle.dumps(res, 2))
        except Exception as e:
            self._exc = e
        self._data = None
        self._done = True
        for cb in self._cbs:
            cb(self)

    def result(self, timeout=None):
        if self._cancelled:
            raise CancelledError()
        self._run()
        if self._exc is not None:
            raise self._exc
        return self._res

    def exception(self, timeout=None):
        self._run()
        return self._exc

    def done(self):
        return self._done or self._cancelled

    def running(self):
        return False

    def cancelled(self):
        return self._cancelled

    def cancel(self):
        if self._done:
            return False
        self._cancelled = True
        return True

    def add_done_callback(self, cb):
        if self._done:
            cb(self)
        else:
            self._cbs.append(cb)


def as_completed(fs, timeout=None):
    # as the real one: a set of futures (duplicates are waited for once)
    pending = []
    for f in fs:
        if not any(f is p for p in pending):
            pending.append(f)
    for f in [p for p in pending if p.done()]:
        pending.remove(f)
        yield f
    while pending:
        f = pending.pop(_next(len(pending)))
        f._run()
        yield f


def wait(fs, timeout=None, return_when=ALL_COMPLETED):
    fs = list(fs)
    if return_when == ALL_COMPLETED:
        for f in as_completed(fs):
            pass
    else:
        for f in as_completed(fs):
            if return_when == FIRST_COMPLETED or f.exception() is not None:
                break
    done = set(f for f in fs if f.done())
    return done, set(fs) - done


class Executor(object):
    def __init__(self, max_workers=None):
        self._max_workers = max_workers

    def submit(self, fn, *args, **kw):
        f = Future(cPickle.dumps((fn, args, kw), 2))
        LOG.append(('submit', f._n))
        return f

    def map(self, fn, *iterables, **kw):
        fs = [self.submit(fn, *args) for args in zip(*iterables)]
        wait(fs)
        return (f.result() for f in fs)

    def shutdown(self, wait=True):
        pass

    def __enter__(self):
        return self

    def __exit__(self, *a):
        return False


class ProcessPoolExecutor(Executor):
    pass


class ThreadPoolExecutor(Executor):
    pass
