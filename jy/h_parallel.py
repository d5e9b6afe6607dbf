# -*- coding: utf-8 -*-
import os
import time
import logging
import collections
import cPickle
import psutil
import codec
from codec import obs
from h_ltree import err
from concurrent import futures
from openquake.commonlib import parallel
from openquake.commonlib.parallel import Pickled

CALLS = []


class Boom(Exception):
    pass


class Odd(Exception):
    """str(exc) is not the message"""
    def __str__(self):
        return 'odd ' + self.args[0]


Pair = collections.namedtuple('Pair', 'a b')
class Falsy(Exception):
    def __nonzero__(self):
        return False


class Old:
    """an exception of an old style class"""
    def __init__(self, msg):
        self.msg = msg

    def __str__(self):
        return self.msg


EXCS = dict(Old=Old, Falsy=Falsy, ValueError=ValueError, KeyError=KeyError, Boom=Boom, Odd=Odd,
            RuntimeError=RuntimeError, StopIteration=StopIteration,
            AttributeError=AttributeError, TypeError=TypeError)


def inner_function(name, msg):
    raise EXCS[name](msg)


def work(n, what, *args):
    """The task: `what` says what to do"""
    CALLS.append(n)
    if what == 'sum':
        return sum(args)
    elif what == 'list':
        return list(args)
    elif what == 'append':
        args[0].append(args[1])
        return args[0]
    elif what == 'none':
        return None
    elif what == 'pair':  # looks like what safely_call returns
        return (args[0], ValueError)
    elif what == 'raise':
        inner_function(*args)
    raise AssertionError(what)


def other_work(n, what, *args):
    return work(n, what, *args)


def noargs():
    CALLS.append(None)
    return 'nothing'


FUNCS = dict(work=work, other_work=other_work, noargs=noargs)


def setenv(value):
    if value is None:
        os.environ.pop('OQ_NO_DISTRIBUTE', None)
    else:
        os.environ['OQ_NO_DISTRIBUTE'] = value


def shown(x):
    if isinstance(x, tuple) and len(x) == 2 and x[1] is ValueError:
        return [x[0], 'ValueError']
    return x


def collect(acc, val):
    return acc + [shown(val)]


class Counter(object):
    """An aggregation which must get its own accumulator back"""
    def __init__(self, falsy=False):
        self.n = 0
        self.bad = []
        self.last = None
        self.falsy = falsy      # to return something else than a list
        self.vals = []

    def __call__(self, acc, val):
        if self.n and acc is not self.last:
            self.bad.append(self.n)
        self.vals.append(shown(val))
        if self.falsy is False:
            self.last = acc + [shown(val)]
        else:
            self.last = self.falsy[self.n % len(self.falsy)]
        self.n += 1
        return self.last


def no_distribute(values):
    out = []
    for v in values:
        setenv(v)
        out.append(parallel.no_distribute())
    setenv(None)
    return out


class Records(logging.Handler):
    def __init__(self):
        logging.Handler.__init__(self)
        self.msgs = []

    def emit(self, record):
        self.msgs.append([record.levelname, record.getMessage()])


def logged(fn):
    h = Records()
    root = logging.getLogger()
    old = root.level
    root.addHandler(h)
    root.setLevel(logging.DEBUG)
    try:
        return fn(), h.msgs
    finally:
        root.removeHandler(h)
        root.setLevel(old)


def map_reduce(env, func, args, acc, name, schedule, how, falsy=False):
    """map_reduce on a list (or generator) of arguments"""
    setenv(env)
    del CALLS[:]
    futures.SCHEDULE[:] = schedule
    agg = Counter(falsy)
    acc = list(acc)
    tuples = [tuple(a) for a in args]
    # equal arguments are the same object
    tuples = [tuples[args.index(a)] for a in args]
    args = [args[args.index(a)] for a in args]
    arg = {'list': tuples, 'gen': (t for t in tuples), 'lists': args,
           'tuple': tuple(tuples)}[how]

    def run():
        kw = {} if name is None else dict(name=name)
        return parallel.map_reduce(FUNCS[func], arg, agg, acc, **kw)
    try:
        res, log = logged(lambda: err(run))
    finally:
        setenv(None)
        futures.SCHEDULE[:] = []
    return {'res': res, 'calls': list(CALLS), 'n': agg.n, 'vals': agg.vals, 'bad': agg.bad,
            'acc': acc, 'log': log}


def manager(env, name, ops, schedule):
    """A history on a TaskManager"""
    setenv(env)
    del CALLS[:]
    futures.SCHEDULE[:] = schedule
    msgs = []

    def progress(msg, *args):
        msgs.append(msg % args if args else msg)
    out = []
    try:
        tm = parallel.TaskManager(work, progress, name) if name else \
            parallel.TaskManager(work, progress)
        for op in ops:
            del msgs[:]
            del CALLS[:]
            if op[0] == 'submit':
                r = err(lambda: tm.submit(*op[1]))
                r = {'ok': None} if 'ok' in r else r
            elif op[0] == 'aggregate':
                r = err(lambda: tm.aggregate_results(collect, list(op[1])))
            else:
                r = err(tm.wait)
            out.append([r, list(msgs), list(CALLS)])
    finally:
        setenv(None)
        futures.SCHEDULE[:] = []
    return out


def value(spec):
    """Values json has not"""
    kind, v = spec
    if kind == 'big':
        return 'x' * v
    if kind == 'set':
        return set(v)
    if kind == 'pair':
        return Pair(*v)
    if kind == 'odict':
        return collections.OrderedDict((k, i) for k, i in v)
    if kind == 'cls':
        return Boom
    return v


def safely(func, args, pickle, exc):
    del CALLS[:]
    if exc is not None:
        args = [0, 'raise'] + exc

    def run():
        if pickle:
            a = [Pickled(x) for x in args]
        else:
            a = tuple(args)
        if pickle is None:
            res = parallel.safely_call(FUNCS[func], a)
        else:
            res = parallel.safely_call(FUNCS[func], a, pickle)
        kind = type(res).__name__
        if isinstance(res, Pickled):
            res = res.unpickle()
        val, etype = res
        return [kind, type(val).__name__, val, etype and etype.__name__,
                etype is None or etype is EXCS.get(etype.__name__)]
    return [err(run), list(CALLS)]


def pickled(spec):
    v = value(spec)

    def run():
        p = Pickled(v)
        w = p.unpickle()
        q = cPickle.loads(cPickle.dumps(p, 2))
        return [same(w, v), type(w) is type(v), len(p),
                len(cPickle.dumps(v, 2)), repr(p), type(v).__name__,
                same(q.unpickle(), v), w is not p.unpickle() or isinstance(
                    v, (int, long, float, str, unicode, type(None), type))]
    return err(run)


def same(a, b):
    """equal, with the same types all the way down"""
    if type(a) is not type(b):
        return False
    if isinstance(a, dict):
        return len(a) == len(b) and all(
            k in b and same(a[k], b[k]) for k in a) and (
            sorted(map(repr, a)) == sorted(map(repr, b)))
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same, a, b))
    return a == b


def sequence(pool, picks, how, pre):
    """pickle_sequence on picks from a pool of objects; `pre` = indexes of
    those already pickled"""
    vals = [value(s) for s in pool]
    objs = [Pickled(v) if i in pre else v for i, v in enumerate(vals)]
    seq = [objs[i] for i in picks]

    def run():
        arg = {'list': seq, 'tuple': tuple(seq), 'gen': (s for s in seq)}[how]
        out = parallel.pickle_sequence(arg)
        first = {}
        for o in out:
            first.setdefault(id(o), len(first))
        return {
            'type': type(out).__name__,
            'pickled': all(isinstance(o, Pickled) for o in out),
            'equal': [same(o.unpickle(), vals[i]) for o, i in zip(out, picks)],
            'kept': [o is objs[i] for o, i in zip(out, picks)],
            'which': [first[id(o)] for o in out], 'n': len(out)}
    return err(run)


def percent(name, todo, calls):
    out = []
    msgs = []

    def progress(msg, *args):
        msgs.append(msg % args if args else msg)
    gen = parallel.log_percent_gen(name, todo, progress)
    for _ in range(calls + 1):
        del msgs[:]
        v = gen.next()
        out.append([v, list(msgs)])
    return out


def mem_usage(used, limit):
    old = psutil.PERCENT[0]
    psutil.PERCENT[0] = used
    try:
        if limit is None:
            _, log = logged(parallel.check_mem_usage)
        else:
            _, log = logged(lambda: parallel.check_mem_usage(limit))
    finally:
        psutil.PERCENT[0] = old
    return log


class Monitor(parallel.PerformanceMonitor):
    def on_exit(self):
        self.seen.append([self.mem, self.duration is not None,
                          self.start_time is not None,
                          type(self.exc).__name__])
        return 'something'


def monitor(pids, rounds):
    """Use a monitor several times; a round is [rss at start, rss at stop,
    exception or None, milliseconds to wait before the block and in it], the
    memory by process (text of the pid)"""
    def table(rss):
        psutil.TABLE.clear()
        for pid, m in rss:
            psutil.TABLE[pid] = m
    out = []
    try:
        table(rounds[0][0])
        mon = Monitor(pids)
        mon.seen = []
        for start, stop, exc, before, inside in rounds:
            table(start)
            del mon.seen[:]
            time.sleep(before / 1000.)
            t0 = time.time()
            raised = None
            try:
                with mon as m:
                    t2 = t3 = time.time()
                    same = m is mon
                    table(stop)
                    time.sleep(inside / 1000.)
                    t3 = time.time()
                    if exc is not None:
                        raise EXCS[exc]('oops')
            except Exception as e:
                raised = e
            t1 = time.time()
            st = time.mktime(mon.start_time.timetuple()) + \
                mon.start_time.microsecond / 1e6
            out.append({
                'same': same, 'raised': raised is not None and type(raised).__name__ or None,
                'exc': mon.exc is not None and type(mon.exc).__name__ or None,
                'exc_same': mon.exc is raised, 'mem': mon.mem,
                'seen': list(mon.seen),
                'duration': t3 - t2 - .003 <= mon.duration <= t1 - t0 + .003,
                'start': t0 - .003 <= st <= t2 + .003,
                'times': [t0, t1, t2, t3, st, mon.duration]})
    finally:
        psutil.TABLE.clear()
    return out
