import os
import collections
from codec import obs, WORK
import codec
from openquake.commonlib import general
WS = general.WeightedSequence


class SubWS(WS):
    pass


def ws_view(w):
    return [list(w), w.weight, len(w)]


def ws_history(ops):
    """a pool of weighted sequences on which the operations act; each answers
    with the state of the whole pool"""
    pool = []
    out = []
    for op in ops:
        kind = op[0]

        def run():
            if kind == 'new':
                pool.append(WS([tuple(p) for p in op[1]]))
            elif kind == 'empty':
                pool.append(WS())
            elif kind == 'gen':
                pool.append(WS((i, w) for i, w in op[1]))
            elif kind == 'insert':
                pool[op[1]].insert(op[2], tuple(op[3]))
            elif kind == 'append':
                pool[op[1]].append(tuple(op[2]))
            elif kind == 'extend':
                pool[op[1]].extend([tuple(p) for p in op[2]])
            elif kind == 'iadd':
                w = pool[op[1]]
                w += [tuple(p) for p in op[2]]
                pool[op[1]] = w
            elif kind == 'add':
                pool.append(pool[op[1]] + pool[op[2]])
            elif kind == 'merge':
                pool.append(WS.merge([pool[i] for i in op[1]]))
            elif kind == 'get':
                return pool[op[1]][op[2]]
            elif kind == 'slice':
                return list(pool[op[1]][op[2]:op[3]])
            elif kind == 'set':
                pool[op[1]][op[2]] = op[3]
            elif kind == 'lt':
                return pool[op[1]] < pool[op[2]]
            elif kind == 'eq':
                a, b = pool[op[1]], pool[op[2]]
                return [a == b, a != b]
            elif kind == 'eqlist':
                a, b = pool[op[1]], op[2]
                return [a == b, a != b]
            elif kind == 'sorted':
                return [w.weight for w in sorted(pool)]
            elif kind == 'repr':
                return repr(pool[op[1]])
            elif kind == 'in':
                return op[2] in pool[op[1]]
            else:
                raise AssertionError(kind)
        out.append([obs(run), [ws_view(w) for w in pool]])
    return out


class Item(object):
    def __init__(self, i, weight, kind):
        self.i, self.w, self.k = i, weight, kind


def blocks(fn, items, limit, use_weight, use_kind, source, take,
           shared=False):
    """items: [[weight, kind]]; the blocks come back as positions"""
    objs = [Item(i, w, k) for i, (w, k) in enumerate(items)]
    if shared:  # items which are alike are the same object
        objs = [objs[items.index(it)] for it in items]
    consumed = [0]

    def gen():
        for o in objs:
            consumed[0] += 1
            yield o
    seq = {'list': lambda: list(objs), 'tuple': lambda: tuple(objs),
           'iter': gen}[source]()
    kw = {}
    if use_weight:
        kw['weight'] = lambda o: o.w
    if use_kind:
        kw['kind'] = lambda o: o.k
    out = []
    steps = []

    def run():
        it = iter(getattr(general, fn)(seq, limit, **kw))
        while take is None or len(out) < take:
            try:
                b = it.next()
            except StopIteration:
                return 'end'
            out.append([[o.i for o in b], b.weight,
                        type(b).__name__])
            steps.append(consumed[0])
        return 'more'
    res = obs(run)
    return {'res': res, 'blocks': out, 'consumed': steps}


# ------------------------------------------------------------- deep_eq

class A(object):
    def __init__(self, **kw):
        self.__dict__.update(kw)


class B(A):
    pass


class S(object):
    __slots__ = ('x', 'y')

    def __init__(self, x, y):
        self.x, self.y = x, y


class S2(object):
    __slots__ = ('x', 'y')

    def __init__(self, x, y):
        self.x, self.y = x, y


NT = collections.namedtuple('NT', 'x y')


def make(spec):
    kind, v = spec
    if kind in ('num', 'str', 'none', 'bool'):
        return v
    if kind == 'unicode':
        return v.decode('utf8')
    if kind == 'complex':
        return complex(*v)
    if kind == 'list':
        return [make(i) for i in v]
    if kind == 'tuple':
        return tuple(make(i) for i in v)
    if kind == 'nt':
        return NT(*[make(i) for i in v])
    if kind == 'gen':
        return (make(i) for i in v)
    if kind == 'dict':
        return dict((make(k), make(x)) for k, x in v)
    if kind == 'odict':
        return collections.OrderedDict((make(k), make(x)) for k, x in v)
    if kind in ('A', 'B'):
        return {'A': A, 'B': B}[kind](**dict((k, make(x)) for k, x in v))
    if kind in ('S', 'S2'):
        return {'S': S, 'S2': S2}[kind](make(v[0]), make(v[1]))
    raise AssertionError(kind)


def deep_eq(a, b, kw):
    def one(x, y):
        res = general.deep_eq(make(x), make(y), **kw)
        return [res[0], type(res[1]).__name__, bool(res[1]), len(res)]
    return {'ab': obs(one, a, b), 'ba': obs(one, b, a), 'aa': obs(one, a, a),
            'bb': obs(one, b, b)}


# ------------------------------------------------------------- the rest

def distinct(keys, source):
    src = {'list': list, 'tuple': tuple, 'iter': iter}[source](keys)
    return [general.distinct(src), keys]


def ceil(pairs):
    def one(a, b):
        r = general.ceil(a, b)
        return [r, isinstance(r, (int, long))]
    return [obs(one, a, b) for a, b in pairs]


def str2bool(texts):
    return [obs(general.str2bool, t) for t in texts]


def writetmp(calls):
    out = []
    paths = []
    for c in calls:
        kw = {}
        base = os.path.join(codec.WORK, 'tmp')
        kw['dir'] = os.path.join(base, *c['dir'])
        existed = os.path.isdir(kw['dir'])
        for k in ('prefix', 'suffix'):
            if c[k] is not None:
                kw[k] = c[k]
        args = [] if c['content'] is None else [c['content']]
        r = obs(general.writetmp, *args, **kw)
        if 'ok' in r:
            paths.append(r['ok'])
            r = {'ok': [os.path.dirname(r['ok']) == kw['dir'],
                        os.path.basename(r['ok']), existed]}
        out.append(r)
    contents = [codec.read(p) if os.path.isfile(p) else None for p in paths]
    return {'calls': out, 'contents': contents,
            'distinct': len(set(paths)) == len(paths),
            'nfiles': sum(len(fs) for _, _, fs in os.walk(
                os.path.join(codec.WORK, 'tmp')))}
