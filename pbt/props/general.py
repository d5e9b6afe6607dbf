import math
from fractions import Fraction
from hypothesis import strategies as st
from pbt.core import Prop
from pbt.gen import long_lists

# ---------------------------------------------------------------- G01
G01 = Prop('G01', '''histories of 2-20 operations (creation, insertion, sums,
merges, replacement, comparison) on a pool of weighted sequences; non-trivial
when a non-empty sequence was changed after being added or merged into
another''')
weight = st.one_of(st.integers(0, 2), st.integers(0, 9), st.integers(0, 40).map(lambda i: i / 4))
item = st.sampled_from(['a', 'b', 'c', 'dd', 1, 2, 0])
pair = st.tuples(item, weight).map(list)
pairs = st.lists(pair, max_size=4)


@st.composite
def ws_case(draw):
    ops = [['new', draw(pairs)]]
    n = 1
    for _ in range(draw(st.integers(1, 19))):
        w = st.integers(0, n - 1)
        pos = st.integers(-3, 5)
        op = draw(st.one_of(
            st.tuples(st.sampled_from(['new', 'gen']), pairs),
            st.just(['empty']),
            st.tuples(st.just('insert'), w, pos, pair),
            st.tuples(st.just('append'), w, pair),
            st.tuples(st.sampled_from(['extend', 'iadd']), w, pairs),
            st.tuples(st.just('add'), w, w),
            st.tuples(st.just('merge'), st.lists(w, max_size=3)),
            st.tuples(st.just('get'), w, pos),
            st.tuples(st.just('slice'), w, pos, pos),
            st.tuples(st.just('set'), w, pos, item),
            st.tuples(st.sampled_from(['lt', 'eq', 'eq']), w, w),
            st.tuples(st.just('eqlist'), w, st.lists(item, max_size=3)),
            st.tuples(st.just('repr'), w),
            st.just(['sorted']),
            st.tuples(st.just('in'), w, item)))
        op = list(op)
        n += op[0] in ('new', 'gen', 'empty', 'add', 'merge')
        ops.append(op)
    some = draw(st.lists(st.integers(0, n - 1), max_size=4, unique=True))
    ops.extend(['lt', i, j] for i in some for j in some)
    return {'ops': ops}


@G01.target(ws_case(), 1600)
def weighted_sequences(ctx, case):
    """a weighted sequence holds the items added to it, in order, and weighs
    the sum of their weights; sums and merges are new sequences, equality
    compares the items, order the weights"""
    got = ctx.call('general.ws_history', ops=case['ops'])
    pool = []
    summed = False
    nt = False
    for op, (g, state) in zip(case['ops'], got):
        kind = op[0]
        ctx.label(kind)
        want = {'ok': None}
        err = None
        if kind in ('new', 'gen'):
            pool.append([[i for i, _ in op[1]], sum(w for _, w in op[1])])
        elif kind == 'empty':
            pool.append([[], 0])
        elif kind in ('insert', 'append'):
            p = pool[op[1]]
            it, w = op[-1]
            p[0].insert(op[2] if kind == 'insert' else len(p[0]), it)
            p[1] += w
            nt |= summed
        elif kind in ('extend', 'iadd'):
            p = pool[op[1]]
            p[0].extend(i for i, _ in op[2])
            p[1] += sum(w for _, w in op[2])
            nt |= summed and bool(op[2])
        elif kind == 'add':
            a, b = pool[op[1]], pool[op[2]]
            pool.append([a[0] + b[0], a[1] + b[1]])
            summed |= bool(a[0])
        elif kind == 'merge':
            pool.append([sum((pool[i][0] for i in op[1]), []),
                         sum(pool[i][1] for i in op[1])])
            summed |= any(pool[i][0] for i in op[1])
        elif kind in ('get', 'set'):
            seq = pool[op[1]][0]
            if -len(seq) <= op[2] < len(seq):
                if kind == 'get':
                    want = {'ok': seq[op[2]]}
                else:
                    seq[op[2]] = op[3]
                    nt |= summed
            else:
                err = 'IndexError'
        elif kind == 'slice':
            want = {'ok': pool[op[1]][0][op[2]:op[3]]}
        elif kind == 'lt':
            want = {'ok': pool[op[1]][1] < pool[op[2]][1]}
        elif kind == 'eq':
            e = pool[op[1]][0] == pool[op[2]][0]
            want = {'ok': [e, not e]}
        elif kind == 'eqlist':
            e = pool[op[1]][0] == op[2]
            want = {'ok': [e, not e]}
        elif kind == 'sorted':
            want = None
            ctx.expect([num(x) for x in g['ok']] ==
                       sorted(p[1] for p in pool), 'sorted: %s', g)
        elif kind == 'repr':
            w = pool[op[1]]
            ctx.expect('ok' in g and isinstance(g['ok'], str) and
                       'weight=' in g['ok'], 'repr: %s', g)
            want = None
        elif kind == 'in':
            want = {'ok': op[2] in pool[op[1]][0]}
        if err:
            ctx.expect('exc' in g and err in g['mro'], '%s: %s', op, g)
        elif want is not None:
            ctx.equal(g, want, str(op))
        ctx.expect(len(state) == len(pool), 'pool size')
        for s, p in zip(state, pool):
            ctx.equal(s[0], p[0], 'items after %s' % op)
            ctx.expect(s[1] == p[1], 'weight after %s: %s, not %s',
                       op, s[1], p[1])
            ctx.equal(s[2], len(p[0]), 'length after %s' % op)
    ctx.nontrivial(nt)


def num(x):
    return float(x['__f']) if isinstance(x, dict) else x


# ---------------------------------------------------------------- G02, G03
G02 = Prop('G02', '''0-25 items with integer or fractional weights (zero and
negative included) and up to three kinds, and a maximum weight; the rule for
non-trivial: at least three blocks and an item of weight zero or a change of
kind''')
G03 = Prop('G03', '''0-25 items with weights and kinds, and a hint from 1 to
30; non-trivial when at least two blocks come out and the weights differ''')
bweight = st.one_of(st.integers(0, 6), st.sampled_from([0, 0, 1, 1, 2, 10]),
                    st.integers(0, 40).map(lambda i: i / 8))


@st.composite
def items_(draw, negatives=True):
    kinds = draw(st.sampled_from([['a'], ['a', 'b'], ['a', 'b', 'c'],
                                  ['Unspecified', 'b'], ['', 'a'],
                                  [0, 1], [None, 'a']]))
    bw = draw(st.sampled_from([bweight, st.integers(0, 3), st.just(1),
                               st.integers(1, 9)]))
    items = draw(long_lists(st.tuples(bw, st.sampled_from(kinds)).map(list),
                            0, 25))
    if negatives and items and draw(st.integers(0, 7)) == 0:
        i = draw(st.integers(0, len(items) - 1))
        items[i][0] = -draw(st.sampled_from([1, 2, 0.5]))
    return items


SCALES = st.sampled_from([None] * 7 + [0, 1, -1])


def scaled(case):
    """large weights with small differences"""
    more = case['scale']
    case = {k: v for k, v in case.items() if k != 'scale'}
    if more is None:
        return case
    case['items'] = [
        [w * 10 ** 10 + (i % 3 == 1) if w > 0 and w == int(w) else w, k]
        for i, (w, k) in enumerate(case['items'])]
    return case


def split_model(items, limit, use_weight, use_kind):
    """(blocks, 'end' or the error)"""
    out = []
    cur, curw, curk = [], 0, None
    for i, (w, k) in enumerate(items):
        if not use_weight:
            w = 1
        if not use_kind:
            k = 'Unspecified'
        if w < 0:
            # whether the block being filled is given out first is not said
            return out, 'ValueError'
        if w == 0:
            continue
        if cur and (curw + w > limit or k != curk):
            out.append([cur, curw])
            cur, curw = [], 0
        cur = cur + [i]
        curw += w
        curk = k
    if cur:
        out.append([cur, curw])
    return out, 'end'


def shared(case, want):
    if not case['shared']:
        return want
    items = case['items']
    return [[[items.index(items[i]) for i in b], w] for b, w in want]


def check_blocks(ctx, got, want, end, what):
    blocks = [[b[0], num(b[1])] for b in got['blocks']]
    ctx.expect(all(b[2] == 'WeightedSequence' for b in got['blocks']),
               'a block is not a weighted sequence: %s', got['blocks'])
    ctx.expect(blocks == want, '%s: got the blocks %s, expected %s', what,
               blocks, want)
    if end == 'ValueError':
        ctx.expect('exc' in got['res'] and 'ValueError' in got['res']['mro'],
                   '%s: expected ValueError, got %s', what, got['res'])
    else:
        ctx.equal(got['res'], {'ok': end}, what)


@G02.target(st.fixed_dictionaries({
    'items': items_(),
    'limit': st.one_of(st.integers(1, 12), st.integers(-1, 30),
                       st.integers(1, 100).map(lambda i: i / 8)),
    'use_weight': st.sampled_from([True, True, True, False]),
    'use_kind': st.sampled_from([True, True, False]),
    'source': st.sampled_from(['list', 'tuple', 'iter']),
    'shared': st.sampled_from([False, False, True]), 'scale': SCALES,
    'take': st.one_of(st.none(), st.none(), st.integers(1, 4))}), 5000)
def splitting_by_weight(ctx, case):
    """the blocks contain the items of non-zero weight in order, each of one
    kind, within the maximum weight unless it is a single item, and none could
    have taken the next item; a negative weight or a maximum that is not
    positive is an error; items are read one ahead at most"""
    if case['scale'] is not None:
        case = dict(case, limit=case['limit'] * 10 ** 10 + case['scale'])
    case = scaled(case)
    got = ctx.call('general.blocks', fn='block_splitter', **case)
    items = case['items']
    if case['limit'] <= 0:
        ctx.label('bad limit')
        ctx.expect('exc' in got['res'] and 'ValueError' in got['res']['mro'],
                   'limit %s: %s', case['limit'], got['res'])
        return
    want, end = split_model(items, case['limit'], case['use_weight'],
                            case['use_kind'])
    full = want
    want = shared(case, want)
    if case['take'] is not None and len(want) >= case['take']:
        want, end = want[:case['take']], 'more'
    check_blocks(ctx, got, want, end, 'block_splitter')
    if case['source'] == 'iter' and end != 'ValueError':
        # a block is known to be complete at the item that starts the next
        for i, n in enumerate(got['consumed']):
            if i + 1 < len(full):
                nxt = full[i + 1][0][0]
                ctx.expect(n <= nxt + 1, 'block %d given out after reading '
                           '%d items instead of %d', i, n, nxt + 1)
    zero = case['use_weight'] and any(w == 0 for w, _ in items)
    kinds = case['use_kind'] and len({k for w, k in items if w}) > 1
    if zero:
        ctx.label('zero weight')
    if kinds:
        ctx.label('kinds')
    if end == 'ValueError':
        ctx.label('negative weight')
    ctx.nontrivial(len(full) > 2 and (zero or kinds))


@G03.target(st.fixed_dictionaries({
    'items': items_(), 'limit': st.integers(1, 30),
    'use_weight': st.sampled_from([True, True, True, False]),
    'use_kind': st.sampled_from([True, True, False]),
    'source': st.sampled_from(['list', 'tuple', 'iter']),
    'shared': st.sampled_from([False, False, True]), 'scale': SCALES,
    'take': st.none()}), 5000)
def splitting_by_hint(ctx, case):
    """splitting with a hint is splitting at the total weight divided by the
    hint, rounded up; nothing comes out of no items"""
    case = scaled(case)
    got = ctx.call('general.blocks', fn='split_in_blocks', **case)
    items = case['items']
    weights = [w if case['use_weight'] else 1 for w, _ in items]
    if any(w < 0 for w in weights):
        ctx.expect('exc' in got['res'] and 'ValueError' in got['res']['mro'],
                   'negative weight: %s', got)
        return
    limit = math.ceil(Fraction(sum(map(Fraction, weights))) / case['limit'])
    want, end = split_model(items, limit, case['use_weight'],
                            case['use_kind'])
    want = shared(case, want)
    check_blocks(ctx, got, want, end, 'split_in_blocks')
    if not items:
        ctx.label('no items')
    ctx.nontrivial(len(want) > 1 and len({w for w in weights if w}) > 1)


# ---------------------------------------------------------------- G04
G04 = Prop('G04', '''pairs of nested values (numbers, texts, None, lists,
tuples, named tuples, generators, dictionaries, objects with attributes or
slots, depth up to 4), the second usually the first with zero to two small
changes; non-trivial when the values are nested and differ in one deep place,
or are equal without being identical''')
SCALE = [0, 1, 3, 7]


@st.composite
def leaf(draw):
    return draw(st.one_of(
        st.integers(-1000, 1000).map(lambda i: ['num', i]),
        st.integers(-8000, 8000).map(lambda i: ['num', i / 8]),
        st.sampled_from([['num', {'__f': 'nan'}], ['num', {'__f': 'inf'}],
                         ['num', {'__f': '-inf'}], ['none', None],
                         ['bool', True], ['bool', False],
                         ['complex', [1.5, -2.0]], ['num', 10**12],
                         ['complex', [1.5, 0]]]),
        st.text('abcé', max_size=3).map(lambda t: ['str', t]),
        st.text('abcé', max_size=3).map(lambda t: ['unicode', t])))


KEYS = ['x', 'y', 'z', 'w', 'mfd', 'name']


def tree(children):
    kid = st.lists(children, max_size=4)
    keyed = st.dictionaries(st.sampled_from(KEYS), children, max_size=4)
    return st.one_of(
        st.tuples(st.sampled_from(['list', 'tuple', 'gen']), kid).map(list),
        st.tuples(children, children).map(lambda v: ['nt', list(v)]),
        st.tuples(st.sampled_from(['dict', 'odict']), keyed.map(
            lambda d: [[['str', k], v] for k, v in d.items()])).map(list),
        st.tuples(st.just('dict'), st.dictionaries(
            st.integers(0, 3), children, max_size=3).map(
                lambda d: [[['num', k], v] for k, v in d.items()])).map(list),
        st.tuples(st.sampled_from(['A', 'B']), keyed.map(
            lambda d: [[k, v] for k, v in d.items()])).map(list),
        st.tuples(st.sampled_from(['S', 'S2']),
                  st.tuples(children, children).map(list)).map(list))


nested = st.recursive(leaf(), tree, max_leaves=10)


def paths(spec, here=()):
    yield here, spec
    kind, v = spec
    if kind in ('list', 'tuple', 'nt', 'gen', 'S', 'S2'):
        for i, x in enumerate(v):
            yield from paths(x, here + ((1, i),))
    elif kind in ('dict', 'odict', 'A', 'B'):
        for i, (k, x) in enumerate(v):
            yield from paths(x, here + ((1, i), 1))


def put(spec, path, new):
    """a copy of spec with new at path"""
    if not path:
        return new
    step = path[0]
    out = list(spec)
    if isinstance(step, tuple):
        seq = list(out[step[0]])
        rest = path[1:]
        if rest and rest[0] == 1:
            k, x = seq[step[1]]
            seq[step[1]] = [k, put(x, rest[1:], new)]
        else:
            seq[step[1]] = put(seq[step[1]], rest, new)
        out[step[0]] = seq
        return out
    raise AssertionError(path)


@st.composite
def mutate(draw, spec, decimal):
    path, sub = draw(st.sampled_from(list(paths(spec))))
    kind, v = sub
    choices = [draw(nested)]
    if kind == 'num' and not isinstance(v, dict):
        eps = 10.0 ** -decimal
        choices += [['num', v + eps * draw(st.sampled_from(
            [0.3, -0.3, 0.1, 2.0, -2.0, 5.0, 100.0]))]] * 4
    if kind == 'num' and not isinstance(v, dict):
        choices += [['complex', [v, 0]]]
    if kind == 'complex':
        eps = 10.0 ** -decimal
        for d in (0.3, -0.2, 2.0, 5.0):
            choices += [['complex', [v[0] + eps * d, v[1]]],
                        ['complex', [v[0], v[1] - eps * d]]]
        choices += [['num', v[0]], ['complex', v[::-1]]]
    if kind in ('list', 'tuple', 'gen'):
        choices += [['list' if kind == 'tuple' else 'tuple', v]] * 2
        choices += [[kind, v + [draw(leaf())]], [kind, v[::-1]]]
        if v:
            choices += [[kind, v[:-1]], [kind, v[1:]]]
    if kind in ('dict', 'odict'):
        choices += [['odict' if kind == 'dict' else 'dict', v[::-1]]] * 2
    if kind in ('dict', 'odict', 'A', 'B') and v:
        choices += [[kind, v[1:]]]
        if kind in 'AB':
            choices += [[kind, [[v[0][0] + 'q', v[0][1]]] + v[1:]],
                        ['B' if kind == 'A' else 'A', v]]
        elif v[0][0][0] == 'str':
            k = ['str', v[0][0][1] + 'q']
            choices += [[kind, [[k, v[0][1]]] + v[1:]]] * 2
    if kind in ('S', 'S2'):
        choices += [['S' if kind == 'S2' else 'S2', v], [kind, v[::-1]]]
    if kind == 'str':
        choices += [['unicode', v], ['str', v + 'a'], ['list', [sub]]]
    if kind == 'unicode':
        choices += [['str', v], ['unicode', v + 'a']]
    return put(spec, path, draw(st.sampled_from(choices)))


@st.composite
def one_sided(draw, spec, name):
    """the key is added somewhere, or removed"""
    some = [(p, s) for p, s in paths(spec)
            if s[0] in ('dict', 'odict', 'A', 'B')]
    if not some:
        return spec
    path, (kind, v) = draw(st.sampled_from(some))
    k = name if kind in 'AB' else ['str', name]
    rest = [kv for kv in v if kv[0] != k]
    if len(rest) == len(v):
        rest = rest + [[k, draw(leaf())]]
    return put(spec, path, [kind, rest])


@st.composite
def deep_case(draw):
    decimal = draw(st.sampled_from([7, 7, 3, 0, 5]))
    a = draw(st.one_of(nested, tree(nested), tree(tree(leaf()))))
    b = a
    for _ in range(draw(st.sampled_from([0, 1, 1, 1, 2]))):
        b = draw(mutate(b, decimal))
    if draw(st.integers(0, 9)) == 0:
        b = draw(nested)
    kw = {}
    if decimal != 7:
        kw['decimal'] = decimal
    if draw(st.integers(0, 3)) == 0:
        kw['exclude'] = excl = draw(st.lists(st.sampled_from(KEYS),
                                             max_size=2, unique=True))
        if excl and draw(st.booleans()):
            b = draw(one_sided(b, excl[0]))
    return {'a': a, 'b': b, 'kw': kw}


class Unclear(Exception):
    """the documentation does not say"""


SEQ = ('list', 'tuple', 'nt', 'gen')


def ascii_only(s):
    return all(ord(c) < 128 for c in s)


def eq_model(a, b, dec, excl):
    ka, va = a
    kb, vb = b
    if ka in SEQ or kb in SEQ:
        if not (ka in SEQ and kb in SEQ):
            return False
        if len(va) != len(vb):
            return False
        return all_(lambda x, y: eq_model(x, y, dec, excl), zip(va, vb))
    if ka in ('dict', 'odict') or kb in ('dict', 'odict'):
        if not (ka in ('dict', 'odict') and kb in ('dict', 'odict')):
            return False
        da = {key(k): x for k, x in va}
        db = {key(k): x for k, x in vb}
        return keyed_eq(da, db, dec, excl)
    if ka in 'AB' or kb in 'AB':
        if ka != kb:
            return False
        return keyed_eq(dict(map(tuple, va)), dict(map(tuple, vb)), dec, excl)
    if ka in ('S', 'S2') or kb in ('S', 'S2'):
        if ka != kb:
            return False
        return all_(lambda x, y: eq_model(x, y, dec, excl),
                    [(x, y) for n, x, y in zip('xy', va, vb)
                     if n not in excl])
    nums = ('num', 'bool', 'complex')
    if ka in nums or kb in nums:
        if not (ka in nums and kb in nums):
            return False
        if 'complex' in (ka, kb):   # both parts agree
            ra, rb = [v if k == 'complex' else [v, 0]
                      for k, v in ((ka, va), (kb, vb))]
            return all_(lambda x, y: eq_model(
                ['num', x], ['num', y], dec, excl), zip(ra, rb))
        x, y = num(va), num(vb)
        if x != x or y != y:
            return x != x and y != y
        if math.isinf(x) or math.isinf(y):
            return x == y
        d = abs(x - y) * 10 ** dec
        if d < 0.45:
            return True
        if d > 1.6:
            return False
        raise Unclear
    if ka == 'none' or kb == 'none':
        return ka == kb
    if ka != kb and not (ascii_only(va) and ascii_only(vb)):
        raise Unclear
    return va == vb


def all_(f, pairs):
    """False wins over unclear: one clear difference is a difference"""
    unclear = False
    for x, y in pairs:
        try:
            if not f(x, y):
                return False
        except Unclear:
            unclear = True
    if unclear:
        raise Unclear
    return True


def keyed_eq(da, db, dec, excl):
    if (set(da) ^ set(db)) - set(excl):
        return False
    return all_(lambda x, y: eq_model(x, y, dec, excl),
                [(da[k], db[k]) for k in da if k not in excl])


def key(k):
    return k[1]


@G04.target(deep_case(), 3000)
def deep_comparison(ctx, case):
    """deep comparison answers (True, '') or (False, reason), in both orders,
    exactly when the values have the same structure, keys, classes and texts
    and their numbers agree to the given decimals, excluded attributes aside"""
    got = ctx.call('general.deep_eq', **case)
    dec = case['kw'].get('decimal', 7)
    excl = case['kw'].get('exclude', [])
    ok = [True, 'str', False, 2]
    ctx.equal(got['aa'], {'ok': ok}, 'comparison with itself')
    ctx.equal(got['bb'], {'ok': ok}, 'comparison with itself')
    try:
        want = eq_model(case['a'], case['b'], dec, excl)
    except Unclear:
        ctx.label('unspecified')
        for k in ('ab', 'ba'):
            ctx.expect('ok' in got[k], 'comparison failed: %s', got[k])
        return
    ctx.label('equal' if want else 'different')
    for k in ('ab', 'ba'):
        g = got[k]
        ctx.expect('ok' in g, 'comparison failed: %s', g)
        ctx.equal([g['ok'][0], g['ok'][2], g['ok'][3]], [want, not want, 2],
                  'comparison %s' % k)
    n = sum(1 for _ in paths(case['a']))
    if excl:
        ctx.label('exclude')
    ctx.nontrivial(n > 3 and case['a'] != case['b'])


# ---------------------------------------------------------------- G05
G05 = Prop('G05', '''sequences with repetitions; quotients of integers and
dyadic fractions around whole results; words around the accepted spellings of
true; 1-5 temporary files in the same or nested directories; non-trivial when
something is repeated, exact, accepted and refused, or several files are
written in one directory''')


@G05.target(st.fixed_dictionaries({
    # 1, 1.0 and True are the same key
    'keys': long_lists(st.one_of(st.integers(0, 5), st.sampled_from('abcd'),
                                 st.integers(0, 3).map(float), st.booleans(),
                                 st.sampled_from(['', '1', 'A', None]),
                                 st.tuples(st.integers(0, 1), st.just('t'))
                                 .map(lambda t: {'__t': list(t)})), 0, 20),
    'source': st.sampled_from(['list', 'tuple', 'iter'])}), 1200)
def distinct_keys(ctx, case):
    """the distinct keys are those given, once each, in order of first
    appearance"""
    got, _ = ctx.call('general.distinct', **case)
    want = []
    for k in case['keys']:
        k = k['__t'] if isinstance(k, dict) else k
        if k not in want:
            want.append(k)
    ctx.equal([[type(k).__name__, k] for k in got],
              [[type(k).__name__, k] for k in want], 'distinct')
    ctx.nontrivial(len(want) > 1 and len(want) < len(case['keys']))


quot = st.one_of(
    st.tuples(st.integers(-10**6, 10**6), st.integers(1, 1000)),
    st.tuples(st.integers(0, 500), st.integers(1, 60), st.integers(-1, 1))
    .map(lambda t: (t[0] * t[1] + t[2], t[1])),
    st.tuples(st.integers(-4000, 4000).map(lambda i: i / 16),
              st.integers(1, 64).map(lambda i: i / 16)),
    st.tuples(st.integers(0, 10), st.integers(-3, 0)))


@G05.target(st.lists(quot.map(list), min_size=1, max_size=8), 1200)
def rounded_up_division(ctx, case):
    """division rounded up gives the least integer not below the quotient, and
    refuses a divisor that is not positive"""
    got = ctx.call('general.ceil', pairs=case)
    exact = 0
    for (a, b), g in zip(case, got):
        if b <= 0:
            ctx.expect('exc' in g and 'AssertionError' in g['mro'],
                       'ceil(%s, %s): %s', a, b, g)
            continue
        q = Fraction(a) / Fraction(b)
        if float(a) / b == int(float(a) / b) and q.denominator != 1:
            continue     # not representable
        exact += q.denominator == 1
        ctx.equal(g, {'ok': [math.ceil(q), True]}, 'ceil(%s, %s)' % (a, b))
    ctx.nontrivial(exact and exact < len(case))


BOOLS = ['true', 'yes', 't', '1', 'True', 'YES', 'T', 'tRUE', 'yEs', 'false',
         'no', 'f', '0', '', 'y', 'on', 'truee', ' true', 'true ', '11', 'tt',
         'None', 'yes ', '01', 'ye', 'tr']


@G05.target(st.lists(st.one_of(st.sampled_from(BOOLS),
                               st.text('trueysTRUE10 ', max_size=5)),
                     min_size=1, max_size=8), 1000)
def boolean_words(ctx, case):
    """exactly true, yes, t and 1, in any case, are true; all else is false"""
    got = ctx.call('general.str2bool', texts=case)
    want = [t.lower() in ('true', 'yes', 't', '1') for t in case]
    ctx.equal(got, [{'ok': w} for w in want], 'str2bool of %s' % case)
    ctx.nontrivial(any(want) and not all(want))


@G05.target(st.lists(st.fixed_dictionaries({
    'dir': st.lists(st.sampled_from(['a', 'b', 'c d']), max_size=3),
    'prefix': st.sampled_from([None, 'p', 'pre_', '']),
    'suffix': st.sampled_from([None, '.xml', '']),
    'content': st.one_of(st.none(), st.just(''), st.text(
        'ab\n\t<é>', max_size=40), st.text(max_size=8).filter(
            lambda t: '\x00' not in t).map(lambda t: t.encode(
                'utf8', 'ignore').decode()),
        st.integers(1000, 9000).map(lambda n: 'x' * n))}),
    min_size=1, max_size=5), 700)
def temporary_files(ctx, case):
    """each temporary file is new, in the given directory (created on demand),
    with the given prefix, suffix and exactly the given content"""
    got = ctx.call('general.writetmp', calls=case)
    for c, g in zip(case, got['calls']):
        ctx.expect('ok' in g, 'writetmp failed: %s', g)
        in_dir, name, existed = g['ok']
        ctx.expect(in_dir, 'not in the directory: %s', g)
        pre = 'tmp' if c['prefix'] is None else c['prefix']
        suf = 'tmp' if c['suffix'] is None else c['suffix']
        ctx.expect(name.startswith(pre) and name.endswith(suf),
                   'name %r lacks %r or %r', name, pre, suf)
    ctx.equal(got['contents'], [c['content'] or '' for c in case], 'contents')
    ctx.expect(got['distinct'] and got['nfiles'] == len(case),
               'files are not all new: %s', got)
    dirs = [tuple(c['dir']) for c in case]
    ctx.nontrivial(len(set(dirs)) < len(dirs))
