"""Seismic sources: S01-S04"""
import json

from hypothesis import strategies as st

from pbt.core import Prop, close, same_close
from pbt import sources as so
from pbt.sources import F
from pbt.trees import TRTS, Ids

CONV = st.tuples(st.sampled_from([50., 1., 50, .5]),
                 st.sampled_from([1., 2, 5.5, 10.]),
                 st.sampled_from([.1, .2, .25]),
                 st.sampled_from([8., 10, 17.5, 30., 60.])).map(list)


def dup(case):
    return json.loads(json.dumps(case))


def mags(srcs, width):
    """min and max magnitude of several distributions"""
    mm = [so.min_max(m, width) for m in srcs]
    return (min(m[0] for m in mm), max(m[1] for m in mm)) if mm \
        else (None, None)


# ---------------------------------------------------------------- S01
S01 = Prop('S01', '''source models of one to six sources of the five kinds and
of one to three tectonic region types, with or without a function changing the
sources, with or without a repeated identifier; histories of updates, counts
and filters on a collector.  Non-trivial: at least two tectonic region types
and three sources; histories with an accepted update after a filter or a
refusal''')


@st.composite
def parse_cases(draw):
    srcs = draw(so.model(nmax=7))
    i = draw(st.integers(0, 9))
    if i == 0 and len(srcs) > 1:
        # sometimes in another tectonic region type
        a, b = draw(st.permutations(range(len(srcs))))[:2]
        srcs[a]['id'] = srcs[b]['id']
    changes = None
    if draw(st.booleans()):
        changes = {s['id']: draw(st.sampled_from([3.5, 7.25, 8., 0.]))
                   for s in srcs if draw(st.booleans())}
    return {'srcs': srcs, 'conv': draw(CONV), 'changes': changes}


@S01.target(parse_cases(), 500)
def parsing(ctx, case):
    """A source model gives one collector for each tectonic region type"""
    srcs, width = case['srcs'], case['conv'][2]
    changes = case['changes'] or {}
    ids = [s['id'] for s in srcs]
    trts = {s['trt'] for s in srcs}
    ctx.nontrivial(len(trts) > 1 and len(srcs) > 2)
    res = ctx.call('source.parse', xml=so.model_xml(srcs), conv=case['conv'],
                   changes=case['changes'])
    if len(set(ids)) < len(ids):
        ctx.label('duplicate id')
        ctx.expect(res.get('exc') == 'DuplicateID',
                   'two sources with the same id: %s', res)
        twice = [i for i in ids if ids.count(i) > 1][0]
        ctx.expect(twice in res['msg'], 'id not in the message: %s', res)
        return
    ctx.expect('ok' in res, 'parse_source_model failed: %s', res)
    res = res['ok']
    if case['changes'] is not None:
        ctx.label('changed sources')
        ctx.equal(res['calls'], ids, 'sources passed to apply_uncertainties')
    want = []
    for trt in trts:
        sub = [s for s in srcs if s['trt'] == trt]
        lo, hi = mags([['incr', repr(changes[s['id']]), '0.1', ['0.1']]
                       if s['id'] in changes else s['mfd'] for s in sub],
                      width)
        want.append([trt, [s['id'] for s in sub], lo, hi])
    want.sort(key=lambda w: (len(w[1]), w[0]))
    ctx.expect(same_close([c[:4] for c in res['cols']], want),
               'collectors: got %s, expected %s', res['cols'], want)
    for weights, counts, total in res['counts']:
        ctx.equal(weights, counts, 'weights of the sources')
        ctx.equal(total, sum(counts), 'number of ruptures')


@st.composite
def histories(draw):
    srcs = draw(so.model(nmax=5, kinds=['point', 'simpleFault',
                                        'characteristicFault']))
    trt = draw(st.sampled_from([s['trt'] for s in srcs]))
    ids = [s['id'] for s in srcs]
    mine = [s['id'] for s in srcs if s['trt'] == trt]
    some = st.lists(st.sampled_from(mine), max_size=4)
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('update'), st.sampled_from(ids + mine)),
        st.tuples(st.just('count'), st.sampled_from(mine)),
        st.tuples(st.just('filter'), some),
        st.tuples(st.just('init'), some)).map(list), min_size=1,
        max_size=12))
    return {'srcs': srcs, 'conv': draw(CONV), 'trt': trt, 'ops': ops}


@S01.target(histories(), 250)
def collector(ctx, case):
    """A collector has the sources it was given"""
    width = case['conv'][2]
    by_id = {s['id']: s for s in case['srcs']}
    res = ctx.call('source.collector_ops', xml=so.model_xml(case['srcs']),
                   conv=case['conv'], trt=case['trt'], ops=case['ops'])
    ctx.expect('ok' in res, 'operation failed: %s', res)
    out = res['ok']
    ids = []
    seen = False
    num = 0

    def state(ids):
        return [case['trt'], ids] + list(mags(
            [by_id[i]['mfd'] for i in ids], width))
    for op, arg in case['ops']:
        got = out.pop(0)
        if op == 'update':
            refused = by_id[arg]['trt'] != case['trt']
            ctx.equal(got, refused, 'source of another tectonic region type '
                      'refused')
            if not refused:
                ids.append(arg)
                if seen:
                    ctx.nontrivial(True)
            else:
                seen = True
        elif op == 'count':
            ctx.equal(got[0], got[1], 'update_num_ruptures of ' + arg)
            num += got[1]
        elif op == 'filter':
            seen = True
            kept = [i for i in ids if i in arg]
            ctx.equal(got[:2], [True, True], 'a new collector')
            ctx.expect(same_close(got[2][:4], state(kept)),
                       'filtered: got %s, expected %s', got[2], state(kept))
            ctx.expect(got[3] is True, 'the filtered collector shares the '
                       'list of sources')
        else:
            ctx.expect(same_close(got[:4], state(arg)),
                       'collector of %s: %s', arg, got)
        now = out.pop(0)
        ctx.expect(same_close(now[:4], state(ids)),
                   'after %s: got %s, expected %s', op, now, state(ids))
        ctx.equal(now[4], num, 'number of ruptures')


@S01.target(st.lists(st.tuples(st.sampled_from(
    TRTS + ['A', 'B', 'a', '', 'AA']), st.integers(0, 4)).map(list),
    max_size=8, unique_by=lambda t: t[0]), 60)
def ordering(ctx, case):
    """Collectors are ordered by number of sources, then by name"""
    ctx.nontrivial(len({n for _, n in case}) < len(case) > 2)
    ctx.equal(ctx.call('source.sort_cols', specs=case),
              sorted(case, key=lambda t: (t[1], t[0])), 'order')


# ---------------------------------------------------------------- S02
S02 = Prop('S02', '''source models of one to four sources of the five kinds,
with magnitude distributions of both types, some with zero rates, converted
and split. Non-trivial: an area source of two or more points, or a fault with
two or more magnitudes of non-zero rate''')


@S02.target(st.fixed_dictionaries({
    'srcs': so.model(nmax=4, kinds=['area', 'simpleFault', 'complexFault'] * 2
                     + ['point', 'characteristicFault']),
    'conv': CONV, 'discr': st.sampled_from([10., 20., 33.3, 50, 100.]),
    'whole': st.booleans()}), 500)
def splitting(ctx, case):
    """Splitting a source conserves its rates"""
    res = ctx.call('source.split', xml=so.model_xml(case['srcs']),
                   conv=case['conv'], discr=case['discr'],
                   whole=case['whole'])
    ctx.equal(len(res), len(case['srcs']), 'number of sources')
    for s, (info, r, same) in zip(case['srcs'], res):
        kind = s['kind']
        ctx.label(kind)
        ctx.expect('ok' in r, 'split_source failed on %s: %s', kind, r)
        ctx.expect(same, 'splitting changed the %s source', kind)
        pieces = r['ok']
        want_rates = so.rates(s['mfd'], case['conv'][2])
        ctx.expect(same_close(info['rates'], want_rates), 'rates of %s: '
                   'got %s, expected %s', s['mfd'], info['rates'], want_rates)
        if kind in ('point', 'characteristicFault'):
            ctx.equal([[p['same'], p['id']] for p in pieces],
                      [[True, s['id']]], 'sources which are not split')
            continue
        ctx.equal([p['id'] for p in pieces],
                  ['%s-%d' % (s['id'], i) for i in range(len(pieces))],
                  'identifiers of the pieces')
        ctx.expect(not any(p['same'] for p in pieces),
                   'the source itself among its pieces')
        if kind == 'area':
            ctx.equal({p['class'] for p in pieces}, {'PointSource'}, 'kind')
            ctx.equal([p['loc'] for p in pieces], info['mesh'],
                      'locations of the points')
            ctx.equal([p['name'] for p in pieces],
                      ['%s-%d' % (s['name'], i) for i in range(len(pieces))],
                      'names')
            ctx.nontrivial(len(pieces) > 1)
            rest = {k: v for k, v in info['rest'].items()
                    if k not in ('polygon', 'area_discretization')}
            n = len(pieces)
            for p in pieces:
                ctx.equal(p['rest'], rest, 'attributes of a point')
                ctx.equal(len(p['rates']), len(want_rates), 'magnitudes')
                for (mag, rate), (m, want) in zip(p['rates'], want_rates):
                    ctx.expect(close(mag, m) and close(rate, want / n, 1e-9,
                                                       1e-300),
                               'rate of %s: got %s, expected %s / %d',
                               mag, rate, want, n)
        else:
            nz = [[m, x] for m, x in want_rates if x]
            ctx.nontrivial(len(nz) > 1)
            if not nz:
                ctx.label('no rates')
            ctx.expect(same_close([p['rates'] for p in pieces],
                                  [[x] for x in nz]),
                       'magnitudes and rates: got %s, expected %s',
                       [p['rates'] for p in pieces], nz)
            for p in pieces:
                ctx.equal([p['class'], p['name'], p['rest'], p['loc']],
                          [info['class'], info['name'], info['rest'], None],
                          'attributes of a fault')


# ---------------------------------------------------------------- S03
S03 = Prop('S03', '''collectors of one to six sources of one tectonic region
type, a filter keeping some of them, weights from less than one rupture to
more than all of them. Non-trivial: at least two blocks and a discarded
source''')


@st.composite
def blocks_cases(draw):
    trt = draw(st.sampled_from(TRTS))
    ids = Ids(draw)
    srcs = [draw(so.source(id=ids(), trt=trt)) for _ in range(
        draw(st.integers(1, 6)))]
    # the same source may be there several times
    for i in draw(st.sampled_from([[], [], [0], [0, 0], [-1, 0]])):
        srcs.append(srcs[i])
    if draw(st.integers(0, 2)) == 0:
        # the identifier of a piece of another source
        s = dict(draw(st.sampled_from(srcs)))
        s['id'] = '%s-%d' % (draw(st.sampled_from(srcs))['id'],
                             draw(st.integers(0, 1)))
        srcs.insert(draw(st.integers(0, len(srcs))), s)
    keep = [s['id'] for s in srcs if draw(st.integers(0, 3))]
    return {'srcs': srcs, 'conv': draw(CONV), 'keep': sorted(set(keep)),
            'max_weight': draw(st.sampled_from(
                [1, 10, 50, 100, 101, 200, 500, 1000, 5000, 10 ** 5, 150.,
                 2000.5])),
            'discr': draw(st.sampled_from([20., 33.3, 50, 100.])),
            'consume': draw(st.sampled_from([None] * 4 + [1, 2])),
            # a limit which is just enough for the first sources, or not
            'just': draw(st.none() | st.tuples(
                st.integers(1, 6), st.sampled_from([-.004, .004])))}


@S03.target(blocks_cases(), 500)
def blocks(ctx, case):
    """The blocks have all the sources near to the sites"""
    srcs, keep = case['srcs'], case['keep']
    n = len(srcs)
    args = dict(xml=so.model_xml(srcs), conv=case['conv'], keep=keep,
                max_weight=case['max_weight'], discr=case['discr'],
                consume=case['consume'])
    out = ctx.call('source.blocks', **args)
    heavy = [p for p in out['pieces'] if p[1] > 0]
    if case['just'] and heavy:
        k, more = case['just']
        total = sum(p[1] for p in heavy[:k])
        args['max_weight'] = (total + more) * (n + 100) / n
        ctx.label('just enough' if more > 0 else 'just not enough')
        out = ctx.call('source.blocks', **args)
    pieces, res = out['pieces'], out['res']
    ctx.expect('ok' in res, 'gen_blocks failed: %s', res)
    res = res['ok']
    heavy = [p for p in pieces if p[1] > 0]
    limit = args['max_weight'] * n / (n + 100)
    got = [i for b, _ in res['blocks'] for i in b]
    counts = iter([p[1] for p in heavy])
    near = [s['id'] for s in srcs if s['id'] in keep]
    ctx.nontrivial(len(res['blocks']) > 1 and len(near) < n)
    whole = case['consume'] is None or len(res['blocks']) < case['consume']
    want = [p[0] for p in heavy]
    if whole:
        ctx.equal(got, want, 'sources in the blocks')
    else:
        ctx.label('partial')
        ctx.equal(got, want[:len(got)], 'sources in the first blocks')
    prev = None
    for b, w in res['blocks']:
        ws = [next(counts) for i in b]
        ctx.equal(w, sum(ws), 'weight of a block')
        ctx.expect(w <= limit + 1e-6 or len(b) == 1,
                   'weight %s over %s in a block of %d', w, limit, len(b))
        if prev is not None:
            ctx.expect(prev + ws[0] > limit - 1e-6,
                       'a block ends at weight %s, limit %s', prev, limit)
        prev = w
    if whole:
        ctx.equal(res['asked'], [s['id'] for s in srcs], 'sources filtered')
        ctx.equal(res['left'], [p[0] for p in pieces],
                  'sources of the collector afterwards')
        ctx.equal(res['num_ruptures'], sum(p[1] for p in pieces),
                  'number of ruptures')
        ctx.equal(res['filtered'], [len(pieces), len(pieces) + n - len(near)],
                  'filtered sources')


# ---------------------------------------------------------------- S04
S04 = Prop('S04', '''source models of one to four sources of the five kinds
(the three surfaces of the characteristic ones included), with any converter
parameters; ruptures of both kinds; sources with one invalid field.
Non-trivial: two kinds of sources, all the ruptures, invalid sources whose
error is raised''')

TIMES = st.sampled_from([50., 1, .5, 10000, None, 0])


@S04.target(st.fixed_dictionaries({
    'srcs': so.model(nmax=4), 'conv': CONV, 'time': TIMES,
    'other': st.none() | st.tuples(st.integers(0, 3), st.sampled_from(
        [.25, 1, 1e-9]))}), 600)
def conversion(ctx, case):
    """A source has the values of its NRML description"""
    conv = [case['time']] + case['conv'][1:]
    srcs = case['srcs']
    for s in srcs:
        ctx.label(s['kind'])
    ctx.nontrivial(len({s['kind'] for s in srcs}) > 1)
    res = ctx.call('source.convert', xml=so.model_xml(srcs), conv=conv)
    ctx.equal(len(res), len(srcs), 'number of sources')
    for s, (one, two, same) in zip(srcs, res):
        want = so.expected(s, conv)
        ctx.expect('ok' in one, '%s source refused: %s', s['kind'], one)
        compare(ctx, one['ok'], want)
        ctx.expect(same, 'the conversion changed the NRML %s source',
                   s['kind'])
        ctx.equal(two, one, 'second conversion')
    if case['other'] and conv[0]:
        # a converter which differs in one of the parameters
        i, more = case['other']
        conv[i] += more / 20 if i == 2 else more
        res = ctx.call('source.convert', xml=so.model_xml(srcs), conv=conv)
        for s, (one, _, _) in zip(srcs, res):
            ctx.expect('ok' in one, '%s source refused: %s', s['kind'], one)
            compare(ctx, one['ok'], so.expected(s, conv))


def compare(ctx, got, want):
    ctx.equal(got[0], want[0], 'class')
    ctx.equal(set(got[1]), set(want[1]), 'attributes')
    for k, v in want[1].items():
        ctx.equal(got[1][k], v, k)


@st.composite
def rupture(draw):
    kind = draw(st.sampled_from(['simpleFault', 'complexFault']))
    s = draw(so.source(kind=kind, zeros=False))
    s['mag'] = draw(so.dec(1, 9))
    s['hypo'] = [draw(so.dec(-180, 180)), draw(so.dec(-90, 90)),
                 draw(so.dec(1, 50))]
    return s


@S04.target(st.tuples(st.lists(rupture(), min_size=1, max_size=3),
                      CONV, TIMES), 200)
def ruptures(ctx, case):
    """A rupture has the values of its NRML description"""
    specs, conv, time = case
    ctx.nontrivial(True)
    keys = ('id', 'mag', 'rake', 'hypo', 'trace', 'edges', 'dip', 'upper',
            'lower')
    res = ctx.call('source.ruptures', specs=[
        {k: s[k] for k in keys if k in s} for s in specs],
        conv=[time] + conv[1:])
    for s, (r, same) in zip(specs, res):
        ctx.expect('ok' in r, 'rupture refused: %s', r)
        ctx.expect(same, 'the conversion changed the NRML rupture')
        compare(ctx, r['ok'], ['Rupture', {
            'mag': F(s['mag']), 'rake': F(s['rake']),
            'tectonic_region_type': None, 'hypocenter': so.pt(s['hypo']),
            'surface': (so.exp_simple_surface if 'trace' in s
                        else so.exp_complex_surface)(s, conv[1]),
            'source_typology': 'SimpleFaultSource' if 'trace' in s
            else 'ComplexFaultSource'}])


def depths(s):
    s['lower'] = s['upper']
    return 'ValueError', 'seismogenic depth'


def scalerel(s):
    s['msr'] = 'WC2094'
    return 'KeyError', 'WC2094'


def hypo(s):
    s['hdd'][-1][1] = repr(F(s['lower']) + 1)
    return 'ValueError', 'hypocenters'


def prob(s):
    s['npd'][0][0] = '0.0123'
    return 'ValueError', ''


def rake_(s):
    s['rake'] = '180.5'
    return 'ValueError', 'rake 180.5'


def npl(s):
    s['npd'][-1][2] = '90.1'
    return 'ValueError', 'dip 90.1'


def bval(s):
    s['mfd'] = ['gr', '2.0', '0.0', '5.0', '6.5']
    return 'ValueError', 'b value'


def neg(s):
    s['mfd'] = ['incr', '5.0', '0.1', ['0.1', '-0.1']]
    return 'ValueError', 'occurrence rates'


def width(s):
    s['mfd'] = ['gr', '2.0', '1.0', '5.0', '6.5']
    return 'AssertionError', ''


def dip(s):
    s['dip'] = '0.0'
    return 'ValueError', 'dip'


def poly(s):
    s['poly'] = [['0.0', '0.0'], ['1.0', '0.0']] * 2
    return 'ValueError', 'polygon'


def lat(s):
    s['pos'] = ['1.0', '90.5']
    return 'ValueError', 'latitude 90.5'


def wrongs(s):
    out = [bval, neg, width]
    if 'msr' in s:
        out.append(scalerel)
    if 'upper' in s:
        out.append(depths)
    if 'hdd' in s:
        out += [hypo, prob, npl]
    if 'rake' in s:
        out.append(rake_)
    if 'dip' in s:
        out.append(dip)
    if 'poly' in s:
        out.append(poly)
    if 'pos' in s:
        out.append(lat)
    return out


@st.composite
def wrong(draw):
    srcs = draw(so.model(nmax=3))
    i = draw(st.integers(0, len(srcs) - 1))
    how = draw(st.sampled_from(wrongs(srcs[i])))
    conv = draw(CONV)
    exc = how(srcs[i])
    if how is width:
        conv[2] = None
        for s in srcs:
            if s is not srcs[i] and s['mfd'][0] == 'gr':
                s['mfd'] = ['incr', '5.0', '0.1', ['0.1']]
    return {'srcs': srcs, 'conv': conv, 'i': i, 'how': how.__name__,
            'exc': exc}


@S04.target(wrong(), 250)
def errors(ctx, case):
    """An error in the conversion tells which source is wrong"""
    ctx.label(case['how'])
    ctx.nontrivial(True)
    res = ctx.call('source.convert', xml=so.model_xml(case['srcs']),
                   conv=case['conv'])
    for i, (s, (one, two, same)) in enumerate(zip(case['srcs'], res)):
        if i != case['i']:
            ctx.expect('ok' in one, '%s source refused: %s', s['kind'], one)
            continue
        ctx.expect('exc' in one, 'an invalid %s source is converted: %s',
                   s['kind'], case['how'])
        exc, text = case['exc']
        ctx.equal(one['exc'], exc, 'type of the error')
        for t in ("id='%s'" % s['id'], "name='%s'" % s['name'], text):
            # (the text of a KeyError is the repr of the message)
            esc = t.encode('unicode_escape').decode()
            ctx.expect(t in one['msg'] or esc in one['msg'],
                       'no %s in the message %s', t,
                       one['msg'])
