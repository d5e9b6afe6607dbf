"""The tables of the package: columns, domains of the cells, keys"""
import csv
import io
from hypothesis import strategies as st
from pbt.core import Prop
from pbt.gen import long_lists
from pbt.models import FIELDS

S = st.sampled_from
plain = st.one_of(S(['', 'a', 'x y', 'asset_01', '0', '1.5', 'é']),
                  st.text('abX1_- ', max_size=5))


def dec(lo, hi):
    """decimal texts from lo to hi"""
    return st.one_of(
        st.integers(lo * 100, hi * 100).map(lambda n: '%s%d.%02d' % (
            '-' if n < 0 else '', abs(n) // 100, abs(n) % 100)),
        st.integers(lo, hi).map(str), S([str(lo), str(hi), '%d.0' % hi]))


def out(lo, hi):
    return st.one_of(
        S([str(lo - 1), str(hi + 1), '%d.001' % hi, '%d.5' % hi,
           '%s%d.01' % ('-' if lo <= 0 else '', abs(lo))]),
        dec(hi + 1, hi + 900), dec(lo - 900, lo - 1))


words = S(['', 'x', '1,5', '1 2', 'None', '--1', '1.2.3', '0x'])
# texts in and out of each domain
DOM = {
    'text': (plain, None),
    'filled': (plain.filter(bool), st.just('')),
    'integer': (st.integers(-99, 99).map(str),
                st.one_of(words, S(['1.5', '1e3', '1.0']))),
    'natural': (st.integers(0, 999).map(str),
                st.one_of(words, S(['1.5', '-1', '-7', '1.0']))),
    'number': (st.one_of(dec(-500, 500), S(['1e3', '-2.5E-3', '1e-300'])),
               words),
    'nonneg': (st.one_of(dec(0, 500), S(['0', '0.0', '1e3', '1e-300'])),
               st.one_of(words, S(['-1', '-0.01', '-1e-9', 'nan']),
                         dec(-90, -1))),
    'lon': (dec(-180, 180), st.one_of(words, out(-180, 180))),
    'lat': (dec(-90, 90), st.one_of(words, out(-90, 90), S(['120', '-180']))),
    'poe': (st.one_of(dec(0, 1), S(['0.999999', '1e-9'])),
            st.one_of(words, S(['1.000001', '-0.000001', '2', '1e3']))),
    'category': (S(['population', 'buildings']),
                 S(['', 'building', 'Population', 'buildings ', 'people'])),
    'agg2': (S(['aggregated', 'per_asset']),
             S(['per_area', 'per asset', 'x', 'Aggregated'])),
    'agg3': (S(['aggregated', 'per_asset', 'per_area']),
             S(['', 'per asset', 'x', 'Aggregated'])),
    'bool': (S(['0', '1', 'true', 'false']),
             S(['True', 'no', '2', 'FALSE', 'yes', '00'])),
    'imt': (S(['PGA', 'PGV', 'PGD', 'IA', 'RSD', 'MMI', 'SA(0.1)', 'SA(2)']),
            S(['', 'SA', 'pga', 'SA()', 'PGA ', 'SA(0.1)x', 'PGX', 'SA(a)'])),
    'names': (S(['a', 'a b', 'slight moderate extreme', 'x1 _y']),
              S(['', '1a', 'a-b', 'a 2', 'a,b'])),
    'discrete': (st.just('discrete'), S(['', 'continuous', 'Discrete'])),
    'continuous': (st.just('continuous'), S(['', 'discrete', 'cont'])),
    # domains of which only the inside is specified
    'imt_': (S(['PGA', 'SA(0.1)']), None),
    'lon_': (dec(-180, 180), words), 'lat_': (dec(-90, 90), words),
}
# a ? marks the cells that may be empty
COLS = {
    'DiscreteVulnerabilitySet': 'text category text imt',
    'DiscreteVulnerability': 'text text text',
    'DiscreteVulnerabilityData': 'text text number number number',
    'FragilityDiscrete': 'discrete text names',
    'FFLimitStateDiscrete': 'text',
    'FFSetDiscrete': 'integer filled nonneg? imt text',
    'FFDataDiscrete': 'text integer number poe',
    'FragilityContinuous': 'continuous text names',
    'FFLimitStateContinuous': 'text',
    'FFSetContinuous': 'integer filled nonneg? text imt_ text number number',
    'FFDataContinuous': 'text integer text number',
    'Location': 'natural lon lat',
    'Exposure': 'filled category text text agg2? text? bool? bool?',
    'CostType': 'text agg3 text agg3? text',
    'Asset': 'natural text filled nonneg nonneg?',
    'Occupancy': 'text text nonneg',
    'Cost': 'text text nonneg nonneg? nonneg? nonneg?',
    'GmfCollection': 'text text',
    'GmfSet': 'integer number?',
    'Gmf': 'integer imt text',
    'GmfData': 'integer imt_ text lon_ lat_ number',
}
NUMERIC = {'number', 'nonneg', 'lon', 'lat', 'poe', 'lon_', 'lat_'}
FORMAT = {}
for _n in COLS:
    FORMAT[_n] = ('Vulnerability' if _n.startswith('Discrete') else
                  'FragilityDiscrete' if _n.endswith('Discrete') else
                  'FragilityContinuous' if _n.endswith('Continuous') else
                  'GmfCollection' if _n.startswith('Gmf') else 'Exposure')

R05 = Prop('R05', '''a record type of the package and 1-6 rows, each cell of
which is drawn from inside or outside the domain of its column; non-trivial
with a valid row and an invalid one''')


@st.composite
def schema_rows(draw):
    name = draw(S(sorted(COLS)))
    rows = []
    for _ in range(draw(st.integers(1, 6))):
        row = []
        broken = draw(S([0, 0, 1, 1, 2, 9]))
        cols = COLS[name].split()
        places = draw(st.permutations(range(len(cols))))[:broken]
        for j, col in enumerate(cols):
            inside, outside = DOM[col.rstrip('?')]
            opt = col.endswith('?')
            if j in places and outside is not None:
                v = draw(outside)
                row.append([v, opt and v == ''])
            elif opt and draw(st.booleans()):
                row.append(['', True])
            else:
                row.append([draw(inside), True])
        rows.append(row)
    return {'name': name, 'rows': rows}


def denoted(dom, text):
    """the value of a text of the domain"""
    if dom.endswith('?'):
        dom = dom[:-1]
        if text == '':
            return None
    if dom in NUMERIC:
        return ['float', float(text)]
    if dom in ('integer', 'natural'):
        return ['int', str(int(text))]
    if dom == 'bool':
        return text in ('1', 'true')
    if dom == 'names':
        return text.split()
    if dom in ('imt', 'imt_'):
        return dom     # V03 checks the parts
    return text


@R05.target(schema_rows(), 3000)
def domains_of_the_cells(ctx, case):
    """a record of the package is valid exactly when each of its cells is in
    the domain of its column, and then has the values the cells denote"""
    name = case['name']
    cols = COLS[name].split()
    rows = [[v for v, _ in r] for r in case['rows']]
    got = ctx.call('record.schema', name=name, rows=rows)
    names = FIELDS[name].split()
    ctx.equal(got['columns'], names, 'columns of ' + name)
    ctx.equal(got['format'], FORMAT[name], 'format of ' + name)
    seen = set()
    for row, g in zip(case['rows'], got['rows']):
        texts = [v for v, _ in row]
        oks = [ok for _, ok in row]
        ctx.equal(g['cells'], oks, 'cells of %s(%s)' % (name, texts))
        rule = name != 'Exposure' or (texts[4] == '') == (texts[5] == '')
        ctx.equal(g['valid'], all(oks) and rule,
                  'validity of %s(%s)' % (name, texts))
        ctx.equal(g['bad'], None if all(oks) else [
            n for n, ok in zip(names, oks) if not ok], 'errors')
        seen.add(all(oks))
        if all(oks):
            for c, t, v in zip(cols, texts, g['values']):
                want = denoted(c, t)
                if want in ('imt', 'imt_'):
                    continue
                if isinstance(want, list) and want[0] == 'float':
                    ctx.expect(isinstance(v, list) and v[0] == 'float' and
                               float(v[1]) == want[1],
                               'value of %r: %s', t, v)
                else:
                    ctx.equal(v, want, 'value of %r in %s' % (t, name))
    ctx.label(name)
    ctx.nontrivial(len(seen) > 1)


# ------------------------------------------------------------- T03
KEYS = {
    'DiscreteVulnerabilitySet': [[0]], 'DiscreteVulnerability': [[0, 1]],
    'DiscreteVulnerabilityData': [[0, 1, 2]],
    'FragilityDiscrete': [[0]], 'FFLimitStateDiscrete': [[0]],
    'FFSetDiscrete': [[0]], 'FFDataDiscrete': [[0, 1, 2]],
    'FragilityContinuous': [[0]], 'FFLimitStateContinuous': [[0]],
    'FFSetContinuous': [[0]], 'FFDataContinuous': [[0, 1, 2]],
    'Location': [[0], [1, 2]], 'Exposure': [[0]], 'CostType': [[0]],
    'Asset': [[1]], 'Occupancy': [[0, 1]], 'Cost': [[0, 1]],
    'GmfCollection': [[0, 1]], 'GmfSet': [[0]], 'Gmf': [[0, 1, 2]],
    'GmfData': [[0, 1, 2, 3, 4]]}
PARENT = {'DiscreteVulnerability': ['DiscreteVulnerabilitySet', [0]],
          'DiscreteVulnerabilityData': ['DiscreteVulnerability', [0, 1]]}
T03 = Prop('T03', '''1-20 insertions of records in the tables of one of the
five formats, whose keys are drawn from two to four texts and change in one
column at a time; the same tables as CSV files; non-trivial when a record was
refused and later one of the same table accepted''')
TABLES = {}
for _n in COLS:
    TABLES.setdefault(FORMAT[_n], []).append(_n)


@st.composite
def insertions(draw, lo=1, hi=20):
    conv = draw(S(sorted(TABLES) + ['Vulnerability', 'Exposure']))
    some = draw(st.lists(S(TABLES[conv]), min_size=1, max_size=3))
    if conv == 'Vulnerability':
        some = TABLES[conv] + some
    pool = {}
    ops = []

    def cell(name, j):
        col = COLS[name].split()[j]
        inside = DOM[col.rstrip('?')][0]
        # the same column has few values; vulnerability keys are shared
        k = (FIELDS[name].split()[j], conv)
        if k not in pool:
            pool[k] = draw(st.lists(inside, min_size=2, max_size=3,
                                    unique=True) if col not in (
                'discrete', 'continuous') else st.just([col]))
        return draw(S(pool[k]))
    last = {}
    for _ in range(draw(st.integers(lo, hi))):
        name = draw(S(some))
        n = len(COLS[name].split())
        if name in last and draw(st.integers(0, 2)):
            row = list(last[name])      # another cell
            j = draw(st.integers(0, n - 1))
            row[j] = cell(name, j)
        else:
            row = [cell(name, j) for j in range(n)]
        last[name] = row
        ops.append([name, row])
    return {'conv': conv, 'ops': ops}


def model_insert(tables, name, row):
    """None or the names of the acceptable errors"""
    errs = []
    if name in PARENT:
        pname, ix = PARENT[name]
        key = [row[i] for i in ix]
        if key not in [r[:len(ix)] for r in tables[pname]]:
            errs.append('ForeignKeyError')
    for ix in KEYS[name]:
        if [row[i] for i in ix] in [[r[i] for i in ix]
                                    for r in tables[name]]:
            errs.append('KeyError')
    if not errs:
        tables[name].append(row)
    return errs or None


@T03.target(insertions(), 1500)
def keys_of_the_tables(ctx, case):
    """a record enters a table of a format exactly when no record there has
    its key and, for vulnerability functions and their data, the set or the
    function exists"""
    got = ctx.call('record.format_tables', conv=case['conv'], ops=case['ops'])
    order = TABLES[case['conv']]
    ctx.equal(got[0], order, 'tables of the format')
    tables = {n: [] for n in order}
    refused = set()
    nt = False
    for (name, row), (res, state) in zip(case['ops'], got[1:]):
        errs = model_insert(tables, name, row)
        if errs:
            ctx.expect('exc' in res and any(e in res['mro'] for e in errs),
                       '%s(%s) after %s: expected %s, got %s', name, row,
                       tables, errs, res)
            ctx.label(errs[0])
            refused.add(name)
        else:
            ctx.equal(res, {'ok': None}, '%s(%s) after %s' % (
                name, row, tables))
            nt |= name in refused
        ctx.equal(state, [tables[n] for n in order], 'tables')
    ctx.label(case['conv'])
    ctx.nontrivial(nt)


def to_csv(rows):
    f = io.StringIO()
    csv.writer(f).writerows(rows)
    return f.getvalue()


@T03.target(st.tuples(insertions(2, 14), S(['mem', 'dir', 'zip']),
                      S(['tables', 'node', 'nrml'])).map(
    lambda t: dict(t[0], kind=t[1], how=t[2])), 500)
def keys_in_csv_files(ctx, case):
    """CSV files with a repeated key or a missing parent are not converted,
    and stay as they are"""
    rows = {}
    for name, row in case['ops']:
        rows.setdefault(name, []).append(row)
    files = [['p__%s.csv' % n, to_csv([FIELDS[n].split()] + rs)]
             for n, rs in rows.items()]
    tables = {n: [] for n in TABLES[case['conv']]}
    errs = None
    for n in TABLES[case['conv']]:
        for row in rows.get(n, []):
            errs = model_insert(tables, n, row)
            if errs:
                break
        if errs:
            break
    if not errs and case['how'] != 'tables':
        return   # the conversion needs more than the keys
    got = ctx.call('csv.groups', kind=case['kind'], files=files, prefix='p',
                   how=case['how'])
    ctx.label(case['conv'])
    if errs:
        ctx.expect('exc' in got['res'] and any(
            e in got['res']['mro'] for e in errs),
            'files %s: expected %s, got %s', files, errs, got['res'])
        left = {n: t for n, t in got['after'].items() if n.endswith('.csv')}
        ctx.equal(left, dict(files), 'files after the refusal')
        ctx.label(errs[0])
        ctx.nontrivial()
    else:
        ctx.equal(got['res'], {'ok': None}, 'reading %s' % files)
        ctx.equal(got['tables'], tables, 'tables')
        ctx.equal(got['conv'], case['conv'], 'format')
