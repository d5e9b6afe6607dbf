from hypothesis import strategies as st
from pbt import models
from pbt.core import Prop
from pbt.models import canon, nrml

C01 = Prop('C01', '''exposure models with 0-6 assets, optional area,
deductible, insurance limit, costs, occupancies and repeated locations, as
trees or files; non-trivial with at least two assets that differ in their
costs or occupancies, or share a location''')
C02 = Prop('C02', '''vulnerability models with 0-4 sets of 1-3 functions over
1-6 levels, as trees or files; non-trivial with at least two sets and three
functions''')
C03 = Prop('C03', '''fragility models of both formats with 1-4 limit states
and 0-3 taxonomies, as trees or files; non-trivial with at least two
taxonomies and two limit states''')
C05 = Prop('C05', '''scenario and event based collections with 0-4 sets of
0-4 fields of 1-4 values, as trees or files; non-trivial with at least two
fields, one of them of spectral acceleration''')

C04 = Prop('C04', '''vulnerability and fragility models as trees, files,
tables or archives of csv files, and exposure and ground motion tables, most of them with one part that contradicts
another; non-trivial with a contradiction''')


def roundtrip(ctx, case):
    node = case['node']
    tables, expected, conv = models.MODELS[node[0]]
    if node[0] == 'fragilityModel':
        conv = 'Fragility' + node[1]['format'].capitalize()
    args = {'node': node}
    if case['file']:
        args['nrml'] = nrml(node, *case['file'])
        ctx.label('file')
    got = ctx.call('conv.roundtrip', **args)
    ctx.equal(got['src'], node, 'the node converted was changed')
    res = got['res']
    ctx.expect('ok' in res, 'conversion failed: %s', res)
    res = res['ok']
    ctx.equal(res['conv'], conv, 'converter')
    want = tables(node)
    ctx.equal(set(res['names']), set(want), 'tables')
    for name, rows in want.items():
        ctx.equal(spaced(res['tables'][name]), spaced(rows), 'table ' + name)
    ctx.equal(res['invalid'], [], 'records of a valid model that are invalid')
    want_node = canon(expected(node))
    ctx.equal(canon(res['node']), want_node, 'node converted back')
    ctx.equal(canon(res['node2']), want_node, 'node converted back again')
    again = res['again']
    for name, rows in tables(res['node']).items():
        ctx.equal(spaced(again[name]), spaced(rows),
                  'table %s converted again' % name)
    return want


def spaced(rows):
    return [[' '.join(c.split()) if isinstance(c, str) else c for c in r]
            for r in rows]


def ascii_(x):
    """whether the texts of a file are decoded is a matter of nrmllib"""
    if isinstance(x, str):
        return x.replace('é', 'e').replace('à', 'a')
    if isinstance(x, list):
        return [ascii_(i) for i in x]
    if isinstance(x, dict):
        return {k: ascii_(v) for k, v in x.items()}
    return x


def cases(model):
    return st.fixed_dictionaries({'node': model, 'file': st.one_of(
        st.none(), st.tuples(st.sampled_from([None, 0, 3]),
                             st.sampled_from(['', ' ', '\n  '])).map(list))
    }).map(lambda c: ascii_(c) if c['file'] else c)


@C01.target(cases(models.exposure()), 900)
def exposure_models(ctx, case):
    """an exposure model converts to tables of valid records and back to the
    same model"""
    t = roundtrip(ctx, case)
    assets = t['Asset']
    costs = {a[1]: sorted(c[1] for c in t['Cost'] if c[0] == a[1])
             for a in assets}
    occ = {a[1]: sorted(c[1] for c in t['Occupancy'] if c[0] == a[1])
           for a in assets}
    ctx.label(case['node'][1]['category'])
    if len(t['Location']) < len(assets):
        ctx.label('shared location')
    if len(set(map(str, occ.values()))) > 1:
        ctx.label('different occupancies')
    ctx.nontrivial(len(assets) > 1 and (
        len(set(map(str, costs.values()))) > 1 or
        len(set(map(str, occ.values()))) > 1 or
        len(t['Location']) < len(assets)))


@C02.target(cases(models.vulnerability()), 900)
def vulnerability_models(ctx, case):
    """a vulnerability model converts to tables of valid records and back to
    the same model"""
    t = roundtrip(ctx, case)
    ctx.nontrivial(len(t['DiscreteVulnerabilitySet']) > 1 and
                   len(t['DiscreteVulnerability']) > 2)


@C03.target(cases(models.fragility()), 900)
def fragility_models(ctx, case):
    """a fragility model converts to tables of valid records and back to the
    same model"""
    t = roundtrip(ctx, case)
    F = case['node'][1]['format'].capitalize()
    ctx.label(F)
    ctx.nontrivial(len(t['FFSet' + F]) > 1 and len(t['FFLimitState' + F]) > 1)


@C05.target(cases(models.gmf()), 900)
def ground_motion_fields(ctx, case):
    """ground motion fields convert to tables of valid records and back to the
    same collection"""
    t = roundtrip(ctx, case)
    ctx.label(case['node'][0])
    ctx.nontrivial(len(t['Gmf']) > 1 and any(
        r[1].startswith('SA') for r in t['Gmf']))


# ------------------------------------------------- starting from the tables

def permuted(rows, keys):
    return [rows[i] for i in sorted(
        range(len(rows)), key=lambda i: (keys[i % len(keys)], i))]


def table_cases(model):
    return st.fixed_dictionaries({
        'node': model, 'keys': st.lists(st.integers(0, 5), min_size=1,
                                        max_size=7)})


def grouped(rows, n, keys, order=None):
    """rows with the groups of equal first n columns permuted"""
    groups = {}
    for r in rows:
        groups.setdefault(tuple(r[:n]), []).append(r)
    names = permuted(list(groups), keys)
    if order:
        names.sort(key=order)
    return [r for g in names for r in groups[g]]


def check_tables(ctx, conv, tables, want_node, want_again):
    order = ['CostType', 'Exposure', 'Location', 'Asset', 'Cost', 'Occupancy']
    items = sorted(tables.items(), key=lambda kv: order.index(kv[0])
                   if kv[0] in order else 0)
    got = ctx.call('conv.from_tables', convname=conv, tables=items)
    ctx.expect('ok' in got, 'conversion of tables failed: %s', got)
    got = got['ok']
    ctx.equal(got['invalid'], [], 'valid records found invalid')
    ctx.equal(got['tables'], tables, 'tables after the conversion')
    ctx.equal(canon(got['node']), canon(want_node), 'node from tables')
    for name, rows in want_again.items():
        ctx.equal(sorted(spaced(got['again'][name])), sorted(spaced(rows)),
                  'table %s converted to a node and back' % name)


@C01.target(st.fixed_dictionaries({
    'node': models.exposure(),
    'keys': st.lists(st.integers(0, 5), min_size=1, max_size=7),
    'locids': st.lists(st.integers(0, 99), min_size=6, max_size=6,
                       unique=True)}), 500)
def exposure_tables(ctx, case):
    """tables in any order convert to the model they describe and back to the
    same tables, location numbers aside"""
    node = models.exposure_expected(case['node'])
    keys = case['keys']
    t = models.exposure_tables(node)
    ids = dict(zip([r[0] for r in t['Location']], map(str, case['locids'])))
    for r in t['Location']:
        r[0] = ids[r[0]]
    for r in t['Asset']:
        r[0] = ids[r[0]]
    for name in ('Location', 'Asset', 'Cost', 'Occupancy'):
        t[name] = permuted(t[name], keys)
    assets = {a[1]['id']: a for a in node[3][-1][3]}
    node = [node[0], node[1], None, node[3][:-1] + [
        ['assets', {}, None, [assets[r[1]] for r in t['Asset']]]]]
    again = {k: t[k] for k in ('CostType', 'Exposure', 'Cost', 'Occupancy')}
    check_tables(ctx, 'Exposure', t, node, again)
    ctx.nontrivial(len(assets) > 1 and len(set(keys)) > 1)


@C02.target(table_cases(models.vulnerability()), 500)
def vulnerability_tables(ctx, case):
    """tables with the sets and the groups of data in any order convert to the
    model they describe and back to the same tables"""
    node, keys = case['node'], case['keys']
    t = models.vulnerability_tables(node)
    t['DiscreteVulnerabilitySet'] = permuted(t['DiscreteVulnerabilitySet'],
                                             keys)
    t['DiscreteVulnerability'] = permuted(t['DiscreteVulnerability'],
                                          keys[::-1])
    t['DiscreteVulnerabilityData'] = grouped(t['DiscreteVulnerabilityData'],
                                             2, keys)
    sets = {s[1]['vulnerabilitySetID']: s for s in node[3]}
    order = [tuple(r[:2]) for r in t['DiscreteVulnerabilityData']]
    want = [node[0], {}, None, [
        [s[0], s[1], None, [s[3][0]] + sorted(
            s[3][1:], key=lambda f: order.index(
                (r[0], f[1]['vulnerabilityFunctionID'])))]
        for r in t['DiscreteVulnerabilitySet'] for s in [sets[r[0]]]]]
    check_tables(ctx, 'Vulnerability', t, want, t)
    ctx.nontrivial(len(sets) > 1 and len(set(keys)) > 1)


@C03.target(table_cases(models.fragility()), 500)
def fragility_tables(ctx, case):
    """tables whose data is grouped by limit state first, with the sets in any
    order, convert to the model they describe"""
    node, keys = case['node'], case['keys']
    F = node[1]['format'].capitalize()
    t = models.fragility_tables(node)
    states = [r[0] for r in t['FFLimitState' + F]]
    t['FFSet' + F] = permuted(t['FFSet' + F], keys)
    t['FFData' + F] = grouped(t['FFData' + F], 2, keys,
                              lambda g: states.index(g[0]))
    ffs = [c for c in node[3] if c[0] == 'ffs']
    want = [node[0], node[1], None, [c for c in node[3] if c[0] != 'ffs'] +
            [ffs[int(r[0]) - 1] for r in t['FFSet' + F]]]
    check_tables(ctx, 'Fragility' + F, t, want, {
        k: t[k] for k in ('Fragility' + F, 'FFLimitState' + F)})
    ctx.nontrivial(len(ffs) > 1 and len(states) > 1)


@C05.target(table_cases(models.gmf()), 500)
def ground_motion_tables(ctx, case):
    """tables with the sets and the groups of values in any order convert to
    the collection they describe and back to the same tables"""
    node, keys = case['node'], case['keys']
    t = models.gmf_tables(node)
    t['GmfSet'] = permuted(t['GmfSet'], keys)
    t['Gmf'] = permuted(t['Gmf'], keys[::-1])
    t['GmfData'] = grouped(t['GmfData'], 3, keys)
    order = [tuple(r[:3]) for r in t['GmfData']]

    def imt(g):
        i = g[1]['IMT']
        return i + '(%s)' % g[1]['saPeriod'] if i == 'SA' else i

    def arranged(s, ses):
        return [s[0], s[1], None, sorted(s[3], key=lambda g: order.index(
            (ses, imt(g), g[1].get('ruptureId', ''))))]
    if node[0] == 'gmfSet':
        want = arranged(node, '0')
    else:
        sets = {s[1]['stochasticEventSetId']: s for s in node[3]}
        want = [node[0], node[1], None, [
            arranged(sets[r[0]], r[0]) for r in t['GmfSet']]]
    check_tables(ctx, 'GmfCollection', t, want, t)
    ctx.nontrivial(len(t['Gmf']) > 1 and len(set(keys)) > 1)


area_cell = st.sampled_from(['', '', 'per_asset', 'aggregated', 'bad'])


@C01.target(st.lists(st.tuples(
    st.sampled_from(['buildings', 'population']), area_cell,
    st.sampled_from(['', '', 'm2', 'square feet']),
    st.sampled_from(['', '0', '1', 'true', 'false', 'True']),
    st.sampled_from(['', '0', 'false', 'no'])).map(list),
    min_size=1, max_size=5), 300)
def exposure_records(ctx, case):
    """an exposure record is valid only if its area has both a type and a unit
    or neither"""
    rows = [['id', c[0], 'src', 'd'] + c[1:] for c in case]
    got = ctx.call('conv.validity', rows=rows)
    both = 0
    for c, g in zip(case, got):
        cells = c[1] != 'bad' and c[3] != 'True' and c[4] != 'no'
        area = (c[1] == '') == (c[2] == '')
        both += cells and not area
        ctx.equal(g, [cells and area, cells, cells and area],
                  'validity of %s' % c)
    ctx.nontrivial(both)


# ------------------------------------------------- parts that contradict

def functions(node):
    """[set, function, levels text node, [nodes of numbers]] of each function"""
    out = []
    for s in node[3]:
        if s[0] not in ('discreteVulnerabilitySet', 'ffs'):
            continue
        iml = models.sub(s, 'IML')
        for f in s[3]:
            if f[0] == 'discreteVulnerability':
                out.append((s, f, iml, f[3]))
            elif f[0] == 'ffd':
                out.append((s, f, iml, f[3]))
            elif f[0] == 'ffc':
                out.append((s, f, None, []))
    return out


def few(n):
    return st.integers(0, max(0, n - 1))


NODE_KINDS = {
    'v': ['none', 'shorter', 'longer', 'fewer levels', 'more levels'],
    'continuous': ['none', 'unknown', 'missing', 'repeated', 'last twice',
                   'swapped', 'named alike']}
NODE_KINDS['discrete'] = NODE_KINDS['v'] + NODE_KINDS['continuous']


@st.composite
def broken_node(draw):
    """a model and what is wrong with it"""
    fmt = draw(st.sampled_from(['v', 'discrete', 'discrete', 'continuous']))
    first = draw(st.sampled_from(NODE_KINDS[fmt]))
    node = draw((models.vulnerability() if fmt == 'v' else
                 models.fragility(fmt)).filter(
        lambda n: functions(n) and roomy(n, first)))
    fs = functions(node)
    s, f, iml, numbers = fs[draw(few(len(fs)))]
    mine = [x for x in s[3] if x[0] == f[0]]
    kinds = ['none']
    if numbers:
        kinds += ['shorter', 'longer']
        if len(mine) == 1:
            kinds += ['fewer levels', 'more levels']
    if fmt != 'v':
        kinds += ['unknown', 'missing', 'repeated', 'last twice']
        if len(mine) > 1:
            kinds += ['swapped'] * 3 + ['named alike']
    kind = first if first in kinds else draw(st.sampled_from(kinds))
    at = s[3].index(f)
    if kind in ('shorter', 'longer'):
        n = numbers[draw(few(len(numbers)))]
        t = n[2].split()
        n[2] = ' '.join(t[:-1] if kind == 'shorter' else t + t[-1:])
    elif kind == 'fewer levels':
        iml[2] = ' '.join(iml[2].split()[:-1])
    elif kind == 'more levels':
        iml[2] += ' 9999'
    elif kind == 'unknown':
        f[1]['ls'] += draw(st.sampled_from(['x', '_', '1']))
        if f[1]['ls'] in [g[1]['ls'] for g in mine if g is not f]:
            kind = 'named alike'
    elif kind == 'missing':
        del s[3][at]
    elif kind == 'repeated':
        s[3].insert(at, f)
    elif kind == 'last twice':
        s[3].append(mine[-1])
    elif kind == 'swapped':
        i = s[3].index(mine[0])
        j = s[3].index(mine[-1])
        s[3][i], s[3][j] = s[3][j], s[3][i]
    elif kind == 'named alike':
        other = [g for g in mine if g is not f][0]
        f[1]['ls'] = other[1]['ls']
    return {'node': node, 'kind': kind, 'file': draw(st.one_of(
        st.none(), st.sampled_from([None, 1]).map(lambda i: [i, ''])))}


@C04.target(broken_node().map(lambda c: ascii_(c) if c['file'] else c), 900)
def contradicting_nodes(ctx, case):
    """a model with numbers of different lengths, or limit states other than
    the ones it declares, is not converted to tables"""
    node, kind = case['node'], case['kind']
    got = ctx.call('conv.to_tables', node=node,
                   nrml=nrml(node, *case['file']) if case['file'] else None)
    ctx.label(node[0] + ' ' + kind)
    if kind == 'none':
        ctx.expect('ok' in got, 'a consistent model is refused: %s', got)
        want = models.MODELS[node[0]][0](node)
        ctx.equal({k: spaced(v) for k, v in got['ok'].items()},
                  {k: spaced(v) for k, v in want.items()}, 'tables')
        return
    ctx.nontrivial(True)
    ctx.expect('ok' not in got, 'converted in spite of "%s": %s', kind, got)


TABLE_KINDS = {
    'v': ['none', 'unknown function', 'unknown set', 'negative level',
          'negative ratio', 'negative coefficient', 'coefficient of nothing',
          'equal levels', 'decreasing levels', 'apart', 'other level',
          'further level', 'level left out'],
    'discrete': ['none', 'unknown function', 'unknown set', 'missing function',
                 'without a number', 'swapped', 'other level', 'further level',
                 'level left out'],
    'continuous': ['none', 'unknown function', 'unknown set', 'swapped',
                   'missing function', 'without a number']}


def roomy(node, kind):
    """whether there is some place for this kind of contradiction"""
    two = any(len([f for f in s[3] if f[0] in (
        'discreteVulnerability', 'ffd', 'ffc')]) > 1 for s in node[3])
    levels = [s for s in node[3] if models.sub(s, 'IML') and
              len((models.sub(s, 'IML')[2] or '').split()) > 1]
    if kind in ('equal levels', 'decreasing levels'):
        return levels
    if kind in ('other level', 'further level', 'swapped', 'named alike'):
        return two
    if kind in ('level left out', 'apart'):
        return two and levels
    return True


@st.composite
def broken_tables(draw):
    fmt = draw(st.sampled_from(['v', 'v', 'discrete', 'continuous']))
    first = draw(st.sampled_from(TABLE_KINDS[fmt]))
    node = draw((models.vulnerability() if fmt == 'v' else
                 models.fragility(fmt)).filter(
        lambda n: functions(n) and roomy(n, first)))
    t = models.MODELS[node[0]][0](node)
    name = [n for n in t if n.endswith('Data') or n.startswith('FFData')][0]
    rows = t[name]
    groups = {}
    for r in rows:
        groups.setdefault(tuple(r[:2]), []).append(r)
    names = list(groups)
    key = names[draw(few(len(names)))]
    g = groups[key]
    which = 0 if fmt == 'v' else 1           # the column of the set
    mine = [k for k in names if k[which] == key[which]]
    kinds = ['none', 'unknown function', 'unknown set']
    if fmt == 'v':
        kinds += ['negative level', 'negative ratio', 'negative coefficient',
                  'coefficient of nothing'] * 2
        if len(g) > 1:
            kinds += ['equal levels', 'decreasing levels'] * 2
            if len(names) > 1:
                kinds += ['apart'] * 2
    if fmt != 'v':
        kinds += ['missing function', 'without a number']
        if len(mine) > 1:
            kinds += ['swapped'] * 2
    if fmt != 'continuous' and len(mine) > 1:
        kinds += ['other level', 'further level'] * 2
        if len(g) > 1:
            kinds += ['level left out'] * 2
    kind = first if first in kinds else draw(st.sampled_from(kinds))
    i = draw(few(len(g)))

    def replace(new, k=key):
        out = []
        for n in names:
            out += new if n == k else groups[n]
        t[name] = out
    if kind == 'unknown function':
        col = 1 if fmt == 'v' else 0
        for r in g:
            r[col] += '1z'
    elif kind == 'unknown set':
        for r in g:
            r[which] += 'x' if fmt == 'v' else '77'
    elif kind == 'missing function':
        replace([])
    elif kind == 'without a number':
        if fmt == 'continuous' or (len(g) > 1 and len(mine) > 1):
            replace(g[:i] + g[i + 1:])
        else:
            replace([])
    elif kind == 'negative level':
        for k in mine:
            groups[k][0][2] = '-0.1'
    elif kind == 'negative ratio':
        g[i][3:] = ['-0.01', '0']
    elif kind == 'negative coefficient':
        g[i][3:] = ['0.5', '-0.01']
    elif kind == 'coefficient of nothing':
        g[i][3:] = [draw(st.sampled_from(['0', '0.0', '0.000'])), '0.25']
    elif kind in ('equal levels', 'decreasing levels'):
        i = draw(st.integers(1, len(g) - 1))
        for k in mine:
            a, b = groups[k][i - 1], groups[k][i]
            if kind == 'equal levels':
                b[2] = a[2]
            else:
                a[2], b[2] = b[2], a[2]
    elif kind == 'apart':
        last = names[-1] if names[-1] != key else names[0]
        out = []
        for n in [k for k in names if k != last] + [last]:
            out += g[:-1] if n == key else groups[n]
        t[name] = out + g[-1:]
    elif kind == 'swapped':
        a, b = mine[0], mine[-1]
        out = []
        for n in names:
            out += groups[b if n == a else a if n == b else n]
        t[name] = out
    elif kind == 'other level':
        g[-1][2] = str(float(g[-1][2]) + 0.05)
    elif kind == 'further level':
        replace(g + [key_row(g[-1])])
    elif kind == 'level left out':
        replace(g[:i] + g[i + 1:])
    return {'tables': [list(i) for i in t.items()], 'kind': kind, 'fmt': fmt,
            'archive': draw(st.sampled_from([None, None, 'mem', 'dir']))}


def key_row(r):
    return r[:2] + [str(float(r[2]) + 5)] + r[3:]


@C04.target(broken_tables(), 900)
def contradicting_tables(ctx, case):
    """tables with functions that risk calculations would refuse, or that have
    different levels or limit states, are not converted to a model"""
    t, kind = case['tables'], case['kind']
    conv = {'v': 'Vulnerability'}.get(
        case['fmt'], 'Fragility' + case['fmt'].capitalize())
    got = ctx.call('conv.to_model', convname=conv, tables=t,
                   archive=case['archive'])
    ctx.label('%s %s' % (case['fmt'], kind))
    if kind == 'none':
        ctx.expect('ok' in got, 'consistent tables are refused: %s', got)
        return
    ctx.nontrivial(True)
    ctx.expect('ok' not in got, 'converted in spite of "%s": %s', kind, got)


ROW_KINDS = ['none', 'none set', 'second', 'second set', 'second set',
             'unknown location', 'missing location', 'missing asset',
             'missing asset of Cost', 'missing asset of Occupancy',
             'further cost', 'unknown asset of Cost',
             'unknown asset of Occupancy', 'unknown type of Cost',
             'missing type of Cost', 'unknown set', 'missing set']


@st.composite
def broken_rows(draw):
    """tables of an exposure or of ground motion fields"""
    kind = draw(st.sampled_from(ROW_KINDS))
    need = kind.split()[-1]
    if need == 'set':
        conv = 'GmfCollection'
        t = models.gmf_tables(draw(models.gmf().filter(
            lambda n: any(s[3] for s in n[3]))))
    else:
        conv = 'Exposure'
        t = draw(models.exposure().map(models.exposure_tables).filter(
            lambda t: t['Asset'] and t.get(need, True)))

    def pick(name):
        return t[name][draw(few(len(t[name])))]
    if kind.startswith('second'):
        name = 'Exposure' if conv == 'Exposure' else \
            'GmfCollection' if t['GmfCollection'] else 'GmfSet'
        new = list(pick(name))
        new[0] += '7'
        t[name].insert(draw(st.integers(0, len(t[name]))), new)
    elif kind == 'unknown location':
        pick('Asset')[0] = '77'
    elif kind == 'missing location':
        r = pick('Location')
        t['Location'].remove(r)
    elif kind.startswith('missing asset'):
        r = pick('Asset')
        if kind != 'missing asset':
            ref = pick(need)[0]
            [r] = [a for a in t['Asset'] if a[1] == ref]
        t['Asset'].remove(r)
        if not any(x[0] == r[1] for x in t['Cost'] + t['Occupancy']):
            kind = 'none'
    elif kind.startswith('unknown asset'):
        pick(kind.split()[-1])[0] += '7?'
    elif kind == 'unknown type of Cost':
        pick('Cost')[1] += '7?'
    elif kind == 'further cost':
        t['Cost'].append([pick('Asset')[1], 'new', '1', '', '', ''])
    elif kind == 'missing type of Cost':
        name = pick('Cost')[1]
        t['CostType'] = [r for r in t['CostType'] if r[0] != name]
    elif kind == 'unknown set':
        pick('GmfData')[0] += '77'
    elif kind == 'missing set':
        name = pick('GmfData')[0]
        t['GmfSet'] = [r for r in t['GmfSet'] if r[0] != name]
    return {'conv': conv, 'tables': [list(i) for i in t.items()],
            'kind': kind, 'archive': draw(st.sampled_from(
                [None, None, 'mem', 'dir']))}


@C04.target(broken_rows(), 700)
def contradicting_rows(ctx, case):
    """tables with rows that have no place in the model, such as the cost of an
    unknown asset, are not converted without them"""
    got = ctx.call('conv.to_model', convname=case['conv'],
                   tables=case['tables'], archive=case['archive'])
    ctx.label('%s %s' % (case['conv'], case['kind']))
    if case['kind'].startswith('none'):
        ctx.expect('ok' in got, 'consistent tables are refused: %s', got)
        return
    ctx.nontrivial(True)
    ctx.expect('ok' not in got, 'converted in spite of "%s": %s',
               case['kind'], got)
