"""Logic trees: L01-L06"""
import copy
import math
from collections import Counter
from decimal import Decimal

from hypothesis import strategies as st

from pbt.core import Prop
from pbt.trees import (
    smlt, paths, weight, to_xml, model_xml, source_files, available, children,
    weights, Ids, TRTS, STYPES, GSIMS, UNC, value, confuse)

HOWS = st.sampled_from(['content', 'content', 'hc', 'unicode'])


def d(x):
    """codec value -> Decimal"""
    if isinstance(x, dict):
        return Decimal(x['__d'])
    return x if x is None else Decimal(str(x))


def files_xml(tree):
    return {n: model_xml(s) for n, s in tree['files'].items()}


def shape(ctx, tree):
    ps = paths(tree)
    ctx.label('levels=%d' % len(tree['levels']))
    if any(bs['apply'] for l in tree['levels'] for bs in l):
        ctx.label('selective')
    if len({len(p) for p in ps}) > 1:
        ctx.label('paths of different lengths')
    return ps


# ---------------------------------------------------------------- L01
L01 = Prop('L01', 'a tree with at least two levels and three paths',
           ['validation data (sources in the models) is made consistent by '
            'the generator'])


@L01.target(st.tuples(smlt(), HOWS, st.booleans()), 800)
def enumeration(ctx, case):
    """All root-to-leaf paths of a source model logic tree, each once, with
    the product of the weights"""
    tree, how, validate = case
    xml, _ = to_xml(tree)
    ps = shape(ctx, tree)
    ctx.nontrivial(len(ps) >= 3 and len(tree['levels']) > 1)
    res = ctx.call('ltree.smlt', xml=xml, files=files_xml(tree), how=how,
                   validate=validate)
    ctx.expect('ok' in res, 'a valid logic tree is refused: %s', res)
    res = res['ok']
    want = [[p[0][1][2], [b[0] for _, b in p]] for p in ps]
    got = [[v, p] for v, _, p in res['real']]
    ctx.equal(got, want, 'paths')
    ws = [d(w) for _, w, _ in res['real']]
    ctx.expect(all(isinstance(w, dict) for _, w, _ in res['real']),
               'weights which are not Decimal: %s', res['real'])
    ctx.expect(ws == [weight(p) for p in ps], 'weights: got %s, expected %s',
               ws, [weight(p) for p in ps])
    ctx.expect(sum(ws) == 1, 'the weights sum up to %s', sum(ws))
    ctx.equal(res['again'], res['real'], 'second iteration')
    if validate and how != 'hc':
        used = {b[2] for b in tree['levels'][0][0]['branches']}
        srcs = [s for n in used for s in tree['files'][n]]
        ctx.equal([res['types'], res['ids'], res['trts']],
                  [sorted({s[i] for s in srcs}) for i in range(3)],
                  'source types, ids and tectonic region types')


# the generator may choose filters on models which no branch references: the
# validation needs the sources of the referenced ones only
def usable(tree):
    used = {b[2] for b in tree['levels'][0][0]['branches']}
    srcs = [s for n in used for s in tree['files'][n]]
    ok = {'applyToSources': {s[1] for s in srcs},
          'applyToSourceType': {s[0] for s in srcs},
          'applyToTectonicRegionType': {s[2] for s in srcs}}
    for level in tree['levels']:
        for bs in level:
            for k, v in bs['filters'].items():
                vs = v.split() if k == 'applyToSources' else [v]
                if not set(vs) <= ok[k]:
                    return False
    return True


def make_usable(tree):
    """Point the filters at sources of the referenced models"""
    used = [b[2] for b in tree['levels'][0][0]['branches']]
    srcs = [s for n in used for s in tree['files'][n]]
    known = {'applyToSources': [s[1] for s in srcs],
             'applyToSourceType': [s[0] for s in srcs],
             'applyToTectonicRegionType': [s[2] for s in srcs]}
    tree = copy.deepcopy(tree)
    for level in tree['levels']:
        for bs in level:
            for k, v in bs['filters'].items():
                vs = v.split() if k == 'applyToSources' else [v]
                vs = [x if x in known[k] else
                      known[k][sum(map(ord, x)) % len(known[k])] for x in vs]
                bs['filters'][k] = ' '.join(sorted(set(vs)))
    return tree


valid_smlt = smlt().map(make_usable)
L01.targets[0].strategy = st.tuples(valid_smlt, HOWS, st.booleans())


# ---------------------------------------------------------------- L02
L02 = Prop('L02', 'the broken place is not in the first branchset, or the '
           'tree has several levels')
KINDS = ['weights', 'dupid', 'apply_unknown', 'apply_occupied', 'apply_old',
         'apply_twice',
         'bad_value', 'late_type', 'two_first', 'first_type', 'sm_filter',
         'two_filters', 'unknown_filter', 'absolute', 'missing_file',
         'bad_model', 'bad_schema', 'bad_xml', 'model_schema']
ALWAYS = KINDS[:6]
BAD_REL = ['x', '1 2', 'nan', 'inf', '1.0.0', '0x1', '--1', '1,5', '1e', '+',
           '.', '1 .5', '1f', '0.1x', 'None']
BAD_AB = ['1', '1 2 3', 'x y', '1 y', 'x 1', '1,2', '1;2', '1.0.0 1', '+ 1',
          '1 -', '.5']


@st.composite
def broken(draw, kinds):
    kind = draw(st.sampled_from(kinds))
    tree = draw(valid_smlt)
    validate = draw(st.booleans()) if kind in ALWAYS else True
    L = tree['levels']
    all_bs = [bs for l in L for bs in l]
    late = [bs for l in L[1:] for bs in l]
    key = file = text = None
    bids = [b[0] for bs in all_bs for b in bs['branches']]
    fresh = 'q%d' % draw(st.integers(0, 99)) + 'new'

    def new_late(**kw):
        """a last level (or one more branchset of it) of our own"""
        bs = dict({'id': fresh, 'type': 'bGRRelative', 'filters': {},
                   'apply': None, 'branches': [[fresh + 'b', '1', '0.1']]},
                  **kw)
        L.append([bs])
        return bs
    if kind == 'weights':
        bs = draw(st.sampled_from(all_bs))
        b = draw(st.sampled_from(bs['branches']))
        delta = Decimal(draw(st.sampled_from(
            ['0.001', '0.0000001', '0.1', '1', '1e-16'])))
        w = Decimal(b[1])
        w = w - delta if w > delta and draw(st.booleans()) else w + delta
        b[1] = '{:f}'.format(w)
        key = ('bset', bs['id'])
    elif kind == 'dupid':
        if len(bids) < 2:
            new_late()
            all_bs = [bs for l in L for bs in l]
            bids = [b[0] for bs in all_bs for b in bs['branches']]
        j = draw(st.integers(1, len(bids) - 1))
        i = draw(st.integers(0, j - 1))
        n = 0
        for bs in all_bs:
            for k, b in enumerate(bs['branches']):
                if n == j:
                    b[0] = bids[i]
                    key = ('branch', bs['id'], k)
                n += 1
    elif kind == 'apply_unknown':
        ends = [b[0] for bs in L[-1] for b in bs['branches']]
        pos = draw(st.integers(0, len(ends)))
        bs = new_late(apply=ends[:pos] + [draw(st.sampled_from(
            [fresh + 'x', fresh + 'b2', ends[0] + '_']))] + ends[pos:])
        key = ('bset', bs['id'])
    elif kind == 'apply_occupied':
        ends = [b[0] for bs in L[-1] for b in bs['branches']]
        e = draw(st.sampled_from(ends))
        new_late(apply=sorted({e} | set(ends[:1])))
        bs = {'id': fresh + '2', 'type': 'maxMagGRRelative', 'filters': {},
              'apply': [x for x in ends if x != e and x != ends[0]] + [e],
              'branches': [[fresh + 'c', '1.0', '-0.1']]}
        L[-1].append(bs)
        key = ('bset', bs['id'])
    elif kind == 'apply_old':
        if len(L) < 2:
            new_late(id=fresh + '0',
                     branches=[[fresh + 'z', '1', '0.1']])
        old = [b[0] for l in L[:-1] for bs in l for b in bs['branches']]
        ends = [b[0] for bs in L[-1] for b in bs['branches']]
        bs = new_late(apply=ends[:1] + [draw(st.sampled_from(old))])
        key = ('bset', bs['id'])
    elif kind == 'apply_twice':
        ends = [b[0] for bs in L[-1] for b in bs['branches']]
        some = draw(st.lists(st.sampled_from(ends), min_size=1, unique=True))
        some.insert(draw(st.integers(0, len(some))),
                    draw(st.sampled_from(some)))
        bs = new_late(apply=some)
        key = ('bset', bs['id'])
    elif kind == 'bad_value':
        if not late:
            late = [new_late()]
        bs = draw(st.sampled_from(late))
        if draw(st.integers(0, 2)) == 0:
            src = tree['files'][L[0][0]['branches'][0][2]][0]
            bs = new_late(type='abGRAbsolute',
                          filters={'applyToSources': src[1]},
                          branches=[[fresh + 'b', '1', '1 1']])
        k = draw(st.integers(0, len(bs['branches']) - 1))
        bs['branches'][k][2] = draw(st.sampled_from(
            BAD_AB if bs['type'] == 'abGRAbsolute' else BAD_REL))
        key = ('value', bs['id'], k)
    elif kind == 'late_type':
        if not late:
            late = [new_late()]
        bs = draw(st.sampled_from(late))
        t = bs['type'] = draw(st.sampled_from(['sourceModel', 'gmpeModel']))
        for b in bs['branches']:
            b[2] = (sorted(tree['files'])[0] if t == 'sourceModel'
                    else GSIMS[0])
        key = ('bset', bs['id'])
    elif kind == 'two_first':
        bs = copy.deepcopy(L[0][0])
        bs['id'] = fresh
        for b in bs['branches']:
            b[0] = fresh + b[0]
        L[0].append(bs)
        key = ('bset', bs['id'])
    elif kind == 'first_type':
        bs = L[0][0]
        bs['type'] = draw(st.sampled_from(
            ['bGRRelative', 'maxMagGRRelative', 'gmpeModel']))
        for b in bs['branches']:
            b[2] = '0.1' if bs['type'] != 'gmpeModel' else GSIMS[0]
        key = ('bset', bs['id'])
    elif kind == 'sm_filter':
        s = draw(st.sampled_from(available(tree['files'])))
        f, i = draw(st.sampled_from([
            ('applyToSources', 1), ('applyToSourceType', 0),
            ('applyToTectonicRegionType', 2)]))
        L[0][0]['filters'][f] = s[i]
        key = ('bset', L[0][0]['id'])
    elif kind == 'two_filters':
        if not late:
            late = [new_late()]
        bs = draw(st.sampled_from(late))
        used = [b[2] for b in L[0][0]['branches']]
        s = draw(st.sampled_from(tree['files'][used[0]]))
        opts = {'applyToSources': s[1], 'applyToSourceType': s[0],
                'applyToTectonicRegionType': s[2]}
        for f in draw(st.permutations(sorted(opts))):
            if len(bs['filters']) < 2:
                bs['filters'].setdefault(f, opts[f])
        key = ('bset', bs['id'])
    elif kind == 'unknown_filter':
        if not late:
            late = [new_late()]
        bs = draw(st.sampled_from(late))
        srcs = [s for b in L[0][0]['branches'] for s in tree['files'][b[2]]]
        if bs['type'].endswith('Absolute'):
            f = 'applyToSources'
        else:
            f = draw(st.sampled_from(['applyToSources', 'applyToSourceType',
                                      'applyToTectonicRegionType']))
        if f == 'applyToSources':
            v = srcs[0][1] + '_no'
            if not bs['type'].endswith('Absolute'):
                v = draw(st.sampled_from(
                    [v, srcs[0][1] + ' ' + v, v + ' ' + srcs[0][1],
                     '%s %s %s' % (srcs[0][1], srcs[-1][1], v)]))
        elif f == 'applyToSourceType':
            left = [t for t in STYPES + ['forest', 'Point']
                    if t not in {s[0] for s in srcs}]
            v = draw(st.sampled_from(left))
        else:
            left = [t for t in TRTS + ['Moon', TRTS[0].lower()]
                    if t not in {s[2] for s in srcs}]
            v = draw(st.sampled_from(left))
        bs['filters'] = {f: v}
        key = ('bset', bs['id'])
    elif kind == 'absolute':
        t = draw(st.sampled_from(['abGRAbsolute', 'maxMagGRAbsolute']))
        srcs = [s for b in L[0][0]['branches'] for s in tree['files'][b[2]]]
        ids = sorted({s[1] for s in srcs})
        how = draw(st.integers(0, 3))
        if how == 0:
            f = {}
        elif how == 1 and len(ids) > 1:
            f = {'applyToSources': ' '.join(ids[:2])}
        elif how == 2:
            f = {'applyToSourceType': srcs[0][0]}
        else:
            f = {'applyToTectonicRegionType': srcs[0][2]}
        bs = new_late(type=t, filters=f, branches=[
            [fresh + 'b', '1', '1 1' if t == 'abGRAbsolute' else '7']])
        key = ('bset', bs['id'])
    elif kind in ('missing_file', 'bad_model', 'model_schema'):
        b = draw(st.sampled_from(L[0][0]['branches']))
        # the first branch with a broken file
        others = [c[2] for c in L[0][0]['branches'] if c is not b]
        b[2] = file = draw(st.sampled_from(
            [fresh + '.xml', 'sub/%s.xml' % fresh] +
            ['%s/%s' % (fresh, o.split('/')[-1]) for o in others]))
        if kind == 'bad_model':
            text = draw(st.sampled_from([
                '', 'x', '<nrml', model_xml([['point', 'a', 'b']])[:-10],
                '<?xml version="1.0"?><nrml></nrmI>',
                model_xml([['point', 'a', 'b']]).replace(
                    '</sourceModel>', '')]))
        elif kind == 'model_schema':
            text = draw(st.sampled_from([
                model_xml([['point', 'a', 'b']]).replace(' id=', ' Id='),
                model_xml([['area', 'a', 'b']]).replace(
                    'tectonicRegion=', 'region='),
                model_xml([['spherical', 'a', 'b']])]))
    elif kind == 'bad_xml':
        xml = to_xml(tree)[0]
        how = draw(st.integers(0, 3))
        if how == 0:
            text = xml[:draw(st.integers(0, len(xml) - 10))]
        elif how == 1:
            text = draw(st.sampled_from(['', 'not xml', '<a>', '{}']))
        elif how == 2:
            text = xml.replace('</logicTreeBranchSet>', '', 1)
        else:
            text = xml.replace('branchID=', 'branchID', 1)
    elif kind == 'bad_schema':
        xml = to_xml(tree)[0]
        how = draw(st.integers(0, 4))
        if how == 0:
            text = xml.replace('branchID=', 'id=', 1)
        elif how == 1:
            text = xml.replace('uncertaintyType=', 'type=', 1)
        elif how == 2:
            text = xml.replace('<logicTreeBranchSet ', '<oops ').replace(
                '</logicTreeBranchSet>', '</oops>')
        elif how == 3:
            text = xml.replace('nrml xmlns=', 'nrml xmlns:x=', 1)
        else:
            text = xml.replace('logicTree ', 'logicTri ').replace(
                '</logicTree>', '</logicTri>')
    return {'tree': tree, 'kind': kind, 'key': list(key) if key else None,
            'file': file, 'text': text, 'validate': validate,
            'how': 'content'}


def refusal(ctx, case):
    tree, kind = case['tree'], case['kind']
    ctx.label(kind)
    xml, where = to_xml(tree)
    files = files_xml(tree)
    want = 'ValidationError'
    name = 'lt.xml'
    if case['file']:
        want, name = 'ParsingError', case['file']
        if case['text'] is not None:
            files[name] = case['text']
    elif case['text'] is not None:
        want, xml = 'ParsingError', case['text']
    ctx.nontrivial(len(tree['levels']) > 1)
    res = ctx.call('ltree.smlt', xml=xml, files=files, how=case['how'],
                   validate=case['validate'])
    ctx.expect('exc' in res, 'accepted: %s', res)
    ctx.equal(res['exc'], want, 'class of the error (%s)' % res['msg'])
    ctx.expect('LogicTreeError' in res['mro'], 'not a LogicTreeError')
    ctx.equal(res['filename'], name, 'file named by the error')
    ctx.equal(res['basepath'], 'WORK', 'base path')
    ctx.expect(name in res['msg'], 'the message does not name the file: %s',
               res['msg'])
    if want == 'ValidationError':
        line = where[tuple(case['key'])]
        ctx.equal(res['lineno'], line, 'line of the mistake (%s)' % res['msg'])
        ctx.expect(str(line) in res['msg'],
                   'the message does not tell the line: %s', res['msg'])


@L02.target(broken(KINDS[:6]), 450)
def refused_structure(ctx, case):
    """A tree with one mistake in its structure is refused with the class, the
    file and the line of the mistake"""
    refusal(ctx, case)


@L02.target(broken(KINDS[6:10]), 450)
def refused_types(ctx, case):
    """The same for a mistake in a value or in the types of the branchsets"""
    refusal(ctx, case)


@L02.target(broken(KINDS[10:14]), 500)
def refused_filters(ctx, case):
    """The same for a mistake in the filters"""
    refusal(ctx, case)


@L02.target(broken(KINDS[14:]), 400)
def refused_files(ctx, case):
    """The same for a file that is missing, is not XML or not of the schema"""
    refusal(ctx, case)


# ---------------------------------------------------------------- L03
L03 = Prop('L03', 'a tree with at least three paths',
           ['statistical bounds of 7 standard deviations'])
SEEDS = st.integers(-2 ** 31, 2 ** 31 - 1)


@L03.target(st.tuples(valid_smlt, HOWS, SEEDS, st.integers(1, 25)), 400)
def samples(ctx, case):
    """As many samples as asked, each a path of the tree, the same for the
    same seed"""
    tree, how, seed, n = case
    ps = shape(ctx, tree)
    ctx.nontrivial(len(ps) > 2)
    res = ctx.call('ltree.smlt_sample', xml=to_xml(tree)[0],
                   files=files_xml(tree), how=how, seed=seed, n=n)
    ctx.expect('ok' in res, 'sampling failed: %s', res)
    one, two, three = res['ok']
    ctx.equal(two, one, 'second iteration on the same tree')
    ctx.equal(three, one, 'another tree with the same seed')
    ctx.equal(len(one), n, 'number of samples')
    legal = {tuple(b[0] for _, b in p): p for p in ps}
    for v, w, p in one:
        ctx.expect(tuple(p) in legal, '%s is not a path of the tree', p)
        path = legal[tuple(p)]
        ctx.equal(v, path[0][1][2], 'source model of the path %s' % p)
        ctx.expect(w is None, 'a sample has weight %s', w)
        ctx.expect(weight(path) > 0, 'the path %s of weight zero was drawn',
                   p)


@st.composite
def rolled(draw):
    tree = draw(valid_smlt)
    depth = len(tree['levels'])
    rolls = []
    for _ in range(draw(st.integers(1, 8))):
        rolls.append([(draw(st.integers(0, 99999)) + .5) / 100000
                      for _ in range(depth)])
    for row in rolls:
        for i, level in enumerate(tree['levels']):
            if draw(st.integers(0, 2)) == 0:
                row[i] = draw(beside([b[1] for b in draw(
                    st.sampled_from(level))['branches']])) or row[i]
    return {'tree': tree, 'rolls': rolls}


def beside(ws):
    """the closest numbers before and after the cumulated weights"""
    sums, acc = [], Decimal(0)
    for w in ws:
        acc += Decimal(w)
        x = float(acc)
        for y in (x, math.nextafter(x, 0), math.nextafter(x, 2)):
            if 0 < y < 1 and Decimal(y) != acc:
                sums.append(y)
    return st.sampled_from(sums) if sums else st.none()


def pick(branches, roll):
    acc = Decimal(0)
    for b in branches:
        acc += Decimal(b[1])
        if acc > Decimal(roll):
            return b


@L03.target(rolled(), 500)
def dice(ctx, case):
    """Each level draws one number, which chooses the branch whose interval
    of the cumulated weights contains it"""
    tree = case['tree']
    ctx.nontrivial(len(shape(ctx, tree)) > 2)
    res = ctx.call('ltree.dice', xml=to_xml(tree)[0], files=files_xml(tree),
                   rolls=case['rolls'])
    ctx.expect('ok' in res, 'sampling failed: %s', res)
    child, root = children(tree)
    for rolls, (name, got, used) in zip(case['rolls'], res['ok']):
        bs, want, i = root, [], 0
        first = None
        while bs is not None:
            b = pick(bs['branches'], rolls[i])
            first = first or b
            want.append(b[0])
            i += 1
            bs = child.get(b[0])
        ctx.equal(got, want, 'path drawn with %s' % rolls)
        ctx.equal(name, first[2], 'source model')
        ctx.equal(used, i, 'numbers drawn')


@st.composite
def weighted(draw):
    n = draw(st.integers(1, 6))
    ws = draw(weights(n))
    if draw(st.booleans()):
        near = beside(ws)
        ws = [{'__d': w} for w in ws]
    else:
        near = st.none()
        ws = [float(w) for w in ws]
    return {'weights': ws, 'rolls': [
        (draw(near) if draw(st.integers(0, 2)) == 0 else None) or
        (draw(st.integers(0, 99999)) + .5) / 100000
        for _ in range(draw(st.integers(0, 12)))]}


@L03.target(weighted(), 500)
def sampled_objects(ctx, case):
    """sample() returns the objects chosen by the numbers drawn"""
    ws = [Decimal(w['__d'] if isinstance(w, dict) else repr(w))
          for w in case['weights']]
    ctx.nontrivial(len(ws) > 1 and len(case['rolls']) > 1)
    res = ctx.call('ltree.sample', **case)
    ctx.expect('ok' in res, 'sampling failed: %s', res)
    branches = [[i, w] for i, w in enumerate(ws)]
    want = [pick(branches, r)[0] for r in case['rolls']]
    ctx.equal(res['ok'], [want, True, len(want)], 'objects drawn')


@L03.target(st.tuples(valid_smlt, st.lists(SEEDS, min_size=3, max_size=3,
                                           unique=True)), 60, 1500)
def frequencies(ctx, case):
    """Paths are drawn in proportion to their weights, for any seed"""
    tree, seeds = case
    n = 700
    ps = shape(ctx, tree)
    ctx.nontrivial(len(ps) > 2)
    res = ctx.call('ltree.smlt_seeds', xml=to_xml(tree)[0],
                   files=files_xml(tree), seeds=seeds, n=n)
    prob = {tuple(b[0] for _, b in p): float(weight(p)) for p in ps}
    for seed, got in zip(seeds, res):
        count = Counter(map(tuple, got))
        for p, w in prob.items():
            sd = (n * w * (1 - w)) ** .5
            ctx.expect(abs(count[p] - n * w) <= 7 * sd + 2,
                       'path %s of weight %s drawn %s times of %s (seed %s)',
                       p, w, count[p], n, seed)
    if sorted(prob.values())[-1] < .9:
        ctx.expect(res[0] != res[1] or res[1] != res[2],
                   'the samples do not depend on the seed: %s', seeds)


# ---------------------------------------------------------------- L04
L04 = Prop('L04', 'at least one source is modified and one uncertainty is '
           'filtered out', ['the modifications themselves are hazardlib\'s '
                            '(stand-in); the check compares which ones are '
                            'applied, in which order'])


@st.composite
def hsource(draw, srcs):
    """A source which some filters select"""
    base = draw(st.sampled_from(srcs))
    if draw(st.booleans()):
        kind, sid, trt = base
    else:
        kind = draw(st.sampled_from(STYPES))
        sid = draw(st.sampled_from([s[1] for s in srcs] + ['zz', base[1] + '0',
                                                           base[1][:-1] or 'x']))
        trt = draw(st.sampled_from([s[2] for s in srcs] + TRTS))
    if draw(st.integers(0, 4)):
        m = ['gr', 4.0, draw(st.integers(80, 90)) / 10, 0.1,
             draw(st.integers(10, 60)) / 10, draw(st.integers(10, 14)) / 10]
    else:
        m = ['incr', 5.0, 0.1, [0.1, 0.2]]
    return {'type': kind, 'id': sid, 'trt': trt, 'mfd': m}


@st.composite
def hsources(draw, srcs):
    """Sources, some of which are alike in all but one thing"""
    out = draw(st.lists(hsource(srcs), min_size=1, max_size=4))
    if draw(st.booleans()):
        new = copy.deepcopy(draw(st.sampled_from(out)))
        fresh = draw(hsource(srcs))
        k = draw(st.sampled_from(['type', 'id', 'trt', 'mfd']))
        new[k] = draw(st.sampled_from(STYPES)) if k == 'type' else fresh[k]
        out.insert(draw(st.integers(0, len(out))), new)
    return out


def selected(filters, source):
    for k, v in filters.items():
        if k == 'applyToSources' and source['id'] not in v.split():
            return False
        if k == 'applyToSourceType' and source['type'] != v:
            return False
        if k == 'applyToTectonicRegionType' and source['trt'] != v:
            return False
    return True


def operation(kind, text):
    if kind == 'abGRAbsolute':
        a, b = text.split()
        return ['set_ab', {'a_val': float(a), 'b_val': float(b)}]
    name = {'bGRRelative': 'increment_b',
            'maxMagGRRelative': 'increment_max_mag',
            'maxMagGRAbsolute': 'set_max_mag'}[kind]
    return [name, {'value': float(text)}]


@st.composite
def uncertain(draw):
    tree = draw(smlt(min_levels=2, max_width=3).map(make_usable))
    srcs = available(tree['files'])
    ps = paths(tree)
    longest = max(map(len, ps))
    best = [i for i, p in enumerate(ps) if len(p) == longest]
    i = draw(st.one_of(st.sampled_from(best),
                       st.integers(0, len(ps) - 1)))
    if len(ps[i]) > 2 and draw(st.booleans()):
        # two levels which say the same thing, once more
        j, k = draw(st.permutations(range(1, len(ps[i]))))[:2]
        (up, one), (low, two) = ps[i][j], ps[i][k]
        low['type'], low['filters'] = up['type'], dict(up['filters'])
        for b in low['branches']:
            b[2] = one[2]
        if draw(st.booleans()):
            two[2] = draw(value(low['type']))
    return {'tree': tree, 'path': i,
            'as_tuple': draw(st.booleans()),
            'sources': draw(hsources(srcs))}


@L04.target(uncertain(), 700)
def apply_path(ctx, case):
    """A path modifies the magnitude distribution of exactly the sources its
    filters select, level by level"""
    tree = case['tree']
    path = paths(tree)[case['path']]
    ids = [b[0] for _, b in path]
    ops, some, skipped = [], 0, 0
    for s in case['sources']:
        mine = []
        for bs, b in path[1:]:
            if selected(bs['filters'], s) and s['mfd'][0] == 'gr':
                mine.append(operation(bs['type'], b[2]))
                some += 1
            else:
                skipped += 1
        ops.append(mine)
    ctx.nontrivial(some and skipped)
    ctx.label('applied=%d' % min(some, 4))
    res = ctx.call('ltree.uncertainties', xml=to_xml(tree)[0],
                   files=files_xml(tree),
                   path={'__t': ids} if case['as_tuple'] else ids,
                   sources=case['sources'], ops=ops)
    got = res['got']
    ctx.expect('ok' in got, 'could not apply the path %s: %s', ids, got)
    for s, (state, same), want in zip(case['sources'], got['ok'],
                                      res['want']):
        if 'exc' in want:   # the distribution refuses the modification
            ctx.label('refused')
            ctx.equal(state.get('exc'), want['exc'],
                      'error for the source %s after %s' % (s, ids))
            continue
        ctx.equal(state, want, 'distribution of the source %s after %s' % (
            s, ids))
        ctx.expect(same, 'the source itself was changed')


@L04.target(st.tuples(smlt(min_levels=2).map(make_usable),
                      st.integers(0, 10 ** 6), st.integers(0, 10 ** 6)), 200)
def wrong_path(ctx, case):
    """A path with a branch which is not where it should be is an error"""
    tree, i, j = case
    ps = paths(tree)
    ids = [b[0] for _, b in ps[i % len(ps)]]
    k = j % len(ids)
    others = [b[0] for l in tree['levels'] for bs in l for b in bs['branches']
              if b[0] not in [x[0] for x in ps[i % len(ps)][k][0]['branches']]]
    ids[k] = (others + ['nope'])[j % (len(others) + 1)]
    ctx.nontrivial(ids[k] != 'nope')
    res = ctx.call('ltree.uncertainties', xml=to_xml(tree)[0],
                   files=files_xml(tree), path=ids, sources=[], ops=[])
    ctx.expect('exc' in res['got'], 'the path %s is accepted', ids)


FLT = st.dictionaries(
    st.sampled_from(['applyToSources', 'applyToSourceType',
                     'applyToTectonicRegionType']), st.integers(0, 30),
    max_size=3)


@st.composite
def filtering(draw):
    srcs = draw(source_files(2).map(available))
    sources = draw(hsources(srcs))
    flts = []
    for f in draw(st.lists(FLT, min_size=1, max_size=4)):
        out = {}
        for k, n in f.items():
            if k == 'applyToSources':
                pool = [s['id'] for s in sources] + [s[1] for s in srcs]
                out[k] = [pool[n % len(pool)], pool[(n * 7 + 1) % len(pool)],
                          'other'][:1 + n % 3]
            elif k == 'applyToSourceType':
                out[k] = (STYPES + [s['type'] for s in sources])[
                    n % (5 + len(sources))]
            else:
                pool = TRTS + [s['trt'] for s in sources]
                out[k] = pool[n % len(pool)]
        flts.append(out)
    return {'flts': flts, 'sources': sources}


@L04.target(filtering(), 700)
def filter_source(ctx, case):
    """A filter selects the sources which satisfy all its conditions"""
    res = ctx.call('ltree.filters', **case)
    answers = set()
    for f, row in zip(case['flts'], res):
        for s, got in zip(case['sources'], row):
            want = selected({k: ' '.join(v) if isinstance(v, list) else v
                             for k, v in f.items()}, s)
            answers.add(want)
            ctx.equal(got, {'ok': want}, 'filter %s on %s' % (f, s))
    ctx.nontrivial(len(answers) == 2)


@L04.target(st.tuples(
    st.sampled_from(UNC + ['sourceModel', 'bGRrelative', '', 'gmpeModel']),
    st.sampled_from([{}, {'applyToSourceType': 'forest'},
                     {'applyTo': 'x'}, {'applyToSources': ['a']},
                     {'applyToSources': ['b', 'c']}]),
    hsource([['point', 'a', TRTS[0]], ['area', 'b', TRTS[1]]])), 300)
def unknown_things(ctx, case):
    """Unknown filters, source types and uncertainty types are errors, never
    silently ignored"""
    kind, flt, source = case
    num = [4.5, 1.1] if kind == 'abGRAbsolute' else 0.1
    if kind == 'maxMagGRAbsolute':
        num = 7.5
    res, state = ctx.call('ltree.apply_one', kind=kind, flt=flt,
                          source=source,
                          value={'__t': num} if isinstance(num, list) else num)
    bad = 'applyTo' in flt or flt.get('applyToSourceType') == 'forest'
    applies = (not bad and source['mfd'][0] == 'gr' and
               source['id'] in flt.get('applyToSources', [source['id']]))
    bad = bad or (applies and kind not in UNC)
    ctx.nontrivial(bad)
    ctx.expect(('exc' in res) == bool(bad), '%s', res)
    if 'ok' in res:
        ctx.expect(res['ok'] is None, 'a result: %s', res)


# ---------------------------------------------------------------- L05
@st.composite
def gmpe_tree(draw, max_paths=150, repeat=False):
    """Branching levels with one gmpe branchset each; some are of tectonic
    region types which are not asked for"""
    ids, bids = Ids(draw), Ids(draw)
    k = draw(st.integers(1, 5))
    trts = [t if draw(st.integers(0, 5)) else draw(st.sampled_from(
        [t + ' ', ' ' + t, t.lower(), t.replace(' ', '  ')]))
            for t in draw(st.permutations(TRTS))[:k]]
    known = [t for t in trts if draw(st.integers(0, 2))] or trts[:1]
    levels = []
    n_paths = 1
    for t in trts:
        n = draw(st.integers(1, 4))
        if t in known and n_paths * n > max_paths:
            n = 1
        if t in known:
            n_paths *= n
        ws = draw(weights(n))
        levels.append([{'id': ids(), 'type': 'gmpeModel',
                        'filters': {'applyToTectonicRegionType': t},
                        'apply': None,
                        'branches': [[bids(), w, draw(st.sampled_from(GSIMS))]
                                     for w in ws]}])
    if draw(st.integers(0, 2)) == 0:
        confuse(draw, [l for l in levels if l[0]['filters'][
            'applyToTectonicRegionType'] in known])
    return {'levels': levels, 'junk': draw(st.integers(0, 3)),
            'known': draw(st.permutations(known))}


def kept(tree):
    return {'levels': [l for l in tree['levels'] if l[0]['filters'][
        'applyToTectonicRegionType'] in tree['known']]}


L05 = Prop('L05', 'at least two known tectonic region types and three paths')


@L05.target(st.tuples(gmpe_tree(), st.sampled_from(['content', 'hc']),
                      st.booleans()), 700)
def gmpe_enumeration(ctx, case):
    """The paths of a GMPE logic tree restricted to the known tectonic region
    types, and the GSIM each path gives to every type"""
    tree, how, validate = case
    ps = paths(kept(tree))
    ctx.nontrivial(len(ps) > 2 and len(ps[0]) > 1)
    ctx.label('skipped levels' if len(kept(tree)['levels']) < len(
        tree['levels']) else 'all levels')
    res = ctx.call('ltree.gmpe', xml=to_xml(tree)[0], trts=tree['known'],
                   how=how, validate=validate)
    ctx.expect('ok' in res, 'a valid tree is refused: %s', res)
    res = res['ok']
    ctx.equal([[v, p] for v, _, p in res['real']],
              [[p[0][1][2], [b[0] for _, b in p]] for p in ps], 'paths')
    ws = [d(w) for _, w, _ in res['real']]
    ctx.expect(ws == [weight(p) for p in ps], 'weights: got %s, expected %s',
               ws, [weight(p) for p in ps])
    ctx.equal(res['again'], res['real'], 'second iteration')
    ctx.equal(res['maps'], [
        {bs['filters']['applyToTectonicRegionType']: b[2] for bs, b in p}
        for p in ps], 'trt -> gsim')


@L05.target(st.tuples(gmpe_tree(), SEEDS, st.integers(1, 10)), 250)
def gmpe_samples(ctx, case):
    """Samples of a GMPE logic tree are paths of it, the same for a seed"""
    tree, seed, n = case
    ps = paths(kept(tree))
    ctx.nontrivial(len(ps) > 2)
    res = ctx.call('ltree.gmpe_sample', xml=to_xml(tree)[0],
                   trts=tree['known'], seed=seed, n=n)
    ctx.expect('ok' in res, 'sampling failed: %s', res)
    one, two, three = res['ok']
    ctx.equal([two, three], [one, one], 'samples with the same seed')
    ctx.equal(len(one), n, 'number of samples')
    legal = {tuple(b[0] for _, b in p): p for p in ps}
    for v, w, p in one:
        ctx.expect(tuple(p) in legal and weight(legal[tuple(p)]) > 0,
                   '%s cannot be drawn', p)
        ctx.equal([v, w], [legal[tuple(p)][0][1][2], None], 'sample')


GKINDS = ['missing', 'dup_trt', 'unknown_gsim', 'type', 'extra_filter',
          'no_filter', 'two_bsets', 'weights', 'dupid', 'xml', 'other_filter',
          'nothing']


@st.composite
def broken_gmpe(draw):
    kind = draw(st.sampled_from(GKINDS))
    tree = draw(gmpe_tree())
    L = tree['levels']
    mine = [l[0] for l in L if l[0]['filters'][
        'applyToTectonicRegionType'] in tree['known']]
    bs = draw(st.sampled_from(mine))
    trt = bs['filters']['applyToTectonicRegionType']
    key = text = None
    if kind == 'missing':
        left = [t for t in TRTS + ['Moon'] if t not in
                [l[0]['filters']['applyToTectonicRegionType'] for l in L]]
        tree['known'] = tree['known'] + [draw(st.sampled_from(left))]
        key = ('tree',)
    elif kind == 'nothing':  # no branchset is of a known type
        tree['known'] = draw(st.sampled_from(
            [['Moon'], ['Moon', 'Mars'], [trt.swapcase()]]))
        key = ('tree',)
    elif kind in ('dup_trt', 'two_bsets'):
        new = copy.deepcopy(bs)
        new['id'] += 'new'
        for b in new['branches']:
            b[0] += 'new'
        key = ('bset', new['id'])
        if kind == 'dup_trt':
            L.append([new])
        else:
            tree['known'] = tree['known'] + ['Moon']
            new['filters'] = {'applyToTectonicRegionType': 'Moon'}
            draw(st.sampled_from(L)).append(new)
    elif kind == 'unknown_gsim':
        k = draw(st.integers(0, len(bs['branches']) - 1))
        g = bs['branches'][k][2]
        bs['branches'][k][2] = draw(st.sampled_from(
            [g + '1', g.lower(), 'Nope', g[:-1], g + ' ' + g]))
        key = ('value', bs['id'], k)
    elif kind == 'type':
        bs['type'] = draw(st.sampled_from(
            ['sourceModel', 'bGRRelative', 'gmpemodel']))
        key = ('bset', bs['id'])
    elif kind == 'extra_filter':
        bs['filters'][draw(st.sampled_from(
            ['applyToSources', 'applyToSourceType']))] = 'point'
        key = ('bset', bs['id'])
    elif kind == 'no_filter':
        bs['filters'] = {}
        key = ('bset', bs['id'])
    elif kind == 'other_filter':
        bs['filters'] = {'applyToSourceType': 'point'}
        key = ('bset', bs['id'])
    elif kind == 'weights':
        b = draw(st.sampled_from(bs['branches']))
        b[1] = str(Decimal(b[1]) + Decimal('0.01'))
        key = ('bset', bs['id'])
    elif kind == 'dupid':
        k = draw(st.integers(0, len(bs['branches']) - 1))
        bs['branches'].append(list(bs['branches'][k]))
        bs['branches'][-1][1] = '0.0'
        key = ('branch', bs['id'], len(bs['branches']) - 1)
    else:
        xml = to_xml(tree)[0]
        text = xml[:draw(st.integers(0, len(xml) - 10))]
    return {'tree': tree, 'kind': kind, 'key': list(key) if key else None,
            'text': text}


@L05.target(broken_gmpe(), 600)
def gmpe_refusals(ctx, case):
    """A GMPE logic tree with one mistake is refused, naming its line"""
    tree = case['tree']
    ctx.label(case['kind'])
    ctx.nontrivial(len(tree['levels']) > 1)
    xml, where = to_xml(tree)
    if case['text'] is not None:
        xml = case['text']
    res = ctx.call('ltree.gmpe', xml=xml, trts=tree['known'], how='content',
                   validate=True)
    ctx.expect('exc' in res, 'accepted: %s', res)
    want = 'ParsingError' if case['text'] is not None else 'ValidationError'
    ctx.equal(res['exc'], want, 'class of the error (%s)' % res['msg'])
    ctx.equal([res['filename'], res['basepath']], ['lt.xml', 'WORK'], 'file')
    if case['key']:
        ctx.equal(res['lineno'], where[tuple(case['key'])],
                  'line of the mistake (%s)' % res['msg'])


# ---------------------------------------------------------------- L06
L06 = Prop('L06', 'at least two kept tectonic region types and three '
           'realizations')


@L06.target(gmpe_tree(), 900)
def gsim_realizations(ctx, case):
    """The realizations are the Cartesian product of the branches of the kept
    tectonic region types"""
    tree = case
    ks = kept(tree)
    ps = paths(ks)
    ctx.nontrivial(len(ps) > 2 and len(ps[0]) > 1)
    ctx.label('types=%d' % len(ks['levels']))
    res = ctx.call('ltree.gsim', xml=to_xml(tree)[0], keys=tree['known'])
    ctx.expect('ok' in res, 'a valid tree is refused: %s', res)
    res = res['ok']
    ctx.equal(res['again'], res['real'], 'second iteration')
    want = sorted([sorted(b[0] for _, b in p), sorted(
        [bs['filters']['applyToTectonicRegionType'], b[2]] for bs, b in p),
        weight(p)] for p in ps)
    got = sorted([sorted(p), sorted([k, v] for k, v in val.items()), d(w)]
                 for val, w, p in res['real'])
    ctx.expect(got == want, 'realizations: got %s, expected %s', got, want)
    # the branchsets come in the same order in all the paths
    owner = {b[0]: l[0]['id'] for l in ks['levels']
             for b in l[0]['branches']}
    orders = {tuple(owner[b] for b in p) for _, _, p in res['real']}
    ctx.equal(len(orders), 1, 'orders of the branchsets')
    ctx.equal(res['branches'], {l[0]['id']: len(l[0]['branches'])
                                for l in ks['levels']}, 'branches')
    ctx.equal(res['paths'], len(ps), 'number of paths')
    ctx.equal({k: sorted(v) for k, v in res['values'].items()},
              {l[0]['filters']['applyToTectonicRegionType']:
               sorted(b[2] for b in l[0]['branches'])
               for l in ks['levels']}, 'uncertainties by type')


SKINDS = ['dup_trt', 'two_bsets', 'type', 'weights', 'none', 'dup_keys',
          'other_filter']


@st.composite
def broken_gsim(draw):
    kind = draw(st.sampled_from(SKINDS))
    tree = draw(gmpe_tree())
    L = tree['levels']
    mine = [l[0] for l in L if l[0]['filters'][
        'applyToTectonicRegionType'] in tree['known']]
    bs = draw(st.sampled_from(mine))
    any_bs = draw(st.sampled_from([l[0] for l in L]))
    flt = 'applyToTectonicRegionType'
    if kind == 'dup_trt':
        new = copy.deepcopy(any_bs)
        new['id'] += 'new'
        for b in new['branches']:
            b[0] += 'new'
        L.insert(draw(st.integers(0, len(L))), [new])
    elif kind == 'two_bsets':
        new = copy.deepcopy(any_bs)
        new['id'] += 'new'
        new['filters'] = {flt: 'Moon'}
        for b in new['branches']:
            b[0] += 'new'
        draw(st.sampled_from(L)).append(new)
    elif kind == 'type':
        any_bs['type'] = draw(st.sampled_from(
            ['sourceModel', 'bGRRelative', 'gmpemodel']))
    elif kind == 'weights':
        b = draw(st.sampled_from(bs['branches']))
        how = draw(st.sampled_from(['more', 'less', 'extra']))
        delta = draw(st.sampled_from(['0.01', '1', '0.0000001']))
        if how == 'extra':
            bs['branches'].insert(
                draw(st.integers(0, len(bs['branches']))),
                ['extra', draw(st.sampled_from(['-', ''])) + delta,
                 draw(st.sampled_from(GSIMS))])
        else:
            b[1] = str(Decimal(b[1]) + Decimal(delta) * (
                1 if how == 'more' else -1))
    elif kind == 'none':
        tree['known'] = ['Moon', 'active shallow CRUST'][
            :draw(st.integers(1, 2))]
    elif kind == 'dup_keys':
        tree['known'] = tree['known'] + [draw(st.sampled_from(
            tree['known']))]
    elif kind == 'other_filter':
        flt = 'applyToSources'
    return {'tree': tree, 'kind': kind, 'flt': flt}


@L06.target(broken_gsim(), 500)
def gsim_refusals(ctx, case):
    """A tree or a request with a mistake is refused"""
    kind, tree = case['kind'], case['tree']
    ctx.label(kind)
    ctx.nontrivial(len(tree['levels']) > 1)
    res = ctx.call('ltree.gsim', xml=to_xml(tree)[0], keys=tree['known'],
                   flt=case['flt'])
    ctx.expect('exc' in res, 'accepted: %s', res)
    want = {'dup_trt': 'InvalidLogicTree', 'two_bsets': 'InvalidLogicTree',
            'type': 'InvalidLogicTree', 'none': 'InvalidLogicTree',
            'dup_keys': 'ValueError'}.get(kind)
    if want:
        ctx.expect(want in res['mro'], '%s instead of %s', res, want)
