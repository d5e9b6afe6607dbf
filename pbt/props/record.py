import re
from hypothesis import strategies as st
from pbt.core import Prop
from pbt.gen import long_lists

CASTS = ['int', 'float', 'str', 'positiveint', 'positivefloat', 'longitude',
         'latitude', 'probability', 'name', 'namelist', 'not_empty',
         'boolean', 'category', 'IMTstr', 'none_or_float', 'none_or_bool',
         'choice', 'unexplained', 'explained_twice']
NAMES = ['a', 'b', 'c', 'd', 'e', 'id', 'lon', 'lat', 'z', 'value', 'name',
         'type', 'A', 'B', 'x1', 'x2', 'x10', 'longer_name']
value = st.one_of(
    st.sampled_from(['', '0', '1', '-1', '2.5', '90.5', '181', '-200', 'abc',
                     'x y', '1x', 'true', 'false', 'True', 'population',
                     'buildings', 'PGA', 'SA(0.1)', 'aggregated', 'per_asset',
                     '1e3', ' 1', 'nan', 'a,b', 'per_area', '0.5']),
    st.integers(-500, 500).map(str),
    st.text('abc 01.-', max_size=4))
REAL = {  # the record types of the package, and texts their fields take
    'Location': ['id lon lat'.split(), ['id'], [['lon', 'lat']]],
    'Exposure': ['id category taxonomySource description area_type area_unit '
                 'deductible_is_absolute insurance_limit_is_absolute'.split(),
                 ['id'], []],
    'CostType': ['name type unit retrofittedType retrofittedUnit'.split(),
                 ['name'], []],
    'Asset': ['location_id asset_ref taxonomy number area'.split(),
              ['asset_ref'], []],
    'Occupancy': ['asset_ref period occupants'.split(),
                  ['asset_ref', 'period'], []],
    'Cost': ['asset_ref type value retrofitted deductible insurance_limit'
             .split(), ['asset_ref', 'type'], []],
    'DiscreteVulnerabilitySet': [
        'vulnerabilitySetID assetCategory lossCategory IMT'.split(),
        ['vulnerabilitySetID'], []],
    'DiscreteVulnerabilityData': [
        'vulnerabilitySetID vulnerabilityFunctionID IML lossRatio '
        'coefficientsVariation'.split(),
        ['vulnerabilitySetID', 'vulnerabilityFunctionID', 'IML'], []],
    'FFSetDiscrete': ['ordinal taxonomy noDamageLimit IMT imlUnit'.split(),
                      ['ordinal'], []],
    'FFDataDiscrete': ['limitState ffs_ordinal iml poe'.split(),
                       ['limitState', 'ffs_ordinal', 'iml'], []],
    'FFDataContinuous': ['limitState ffs_ordinal param value'.split(),
                         ['limitState', 'ffs_ordinal', 'param'], []],
    'GmfData': ['stochasticEventSetId imtStr ruptureId lon lat gmv'.split(),
                ['stochasticEventSetId', 'imtStr', 'ruptureId', 'lon', 'lat'],
                []],
}


@st.composite
def rectype(draw, name='Rec', casts=CASTS, max_fields=6):
    names = draw(st.lists(st.sampled_from(NAMES), min_size=1,
                          max_size=max_fields, unique=True))
    fields = [[n, draw(st.sampled_from(casts))] for n in names]
    spec = {'name': name, 'fields': fields,
            'pkey': draw(st.lists(st.sampled_from(names), min_size=1,
                                  max_size=3, unique=True)),
            'constraints_first': draw(st.booleans())}
    uniques = []
    for attr in draw(st.sampled_from([[], [], ['unique'], ['u1', 'u2']])):
        uniques.append([attr, draw(st.lists(
            st.sampled_from(names), min_size=1, max_size=2, unique=True))])
    spec['uniques'] = uniques
    return spec


@st.composite
def typed_rows(draw, max_rows):
    """a record type (made up or of the package) and rows of texts"""
    if draw(st.integers(0, 2)) == 0:
        name = draw(st.sampled_from(sorted(REAL)))
        n = len(REAL[name][0])
        specs = None
        cons = []
    else:
        spec = draw(rectype())
        n = len(spec['fields'])
        cons = []
        if n > 1 and draw(st.booleans()):
            cons = draw(st.lists(st.tuples(
                st.sampled_from(['same_empty', 'distinct']),
                st.lists(st.sampled_from([f for f, _ in spec['fields']]),
                         min_size=2, max_size=2, unique=True)),
                min_size=1, max_size=2))
        spec['constraints'] = cons = [list(c) for c in cons]
        specs, name = [spec], spec['name']
    rows = draw(st.lists(st.lists(row_value(specs, name), min_size=n,
                                  max_size=n), min_size=1, max_size=max_rows))
    good = draw(st.lists(st.integers(0, len(rows)), max_size=3))
    # some rows are made (mostly) valid
    for i in set(good):
        if i < len(rows):
            rows[i] = draw(valid_row(specs, name))
    return {'specs': specs, 'name': name, 'rows': rows, 'constraints': cons}


def row_value(specs, name):
    return value


GOOD = {'int': ['0', '1', '-7'], 'float': ['0', '1.5', '-2e3', 'nan'],
        'str': ['', 'x', 'a b'], 'positiveint': ['0', '3'],
        'positivefloat': ['0', '2.5'], 'longitude': ['-180', '12.5'],
        'latitude': ['90', '-45.5'], 'probability': ['0', '1', '.5'],
        'name': ['abc', '_x1'], 'namelist': ['a', 'a b'],
        'not_empty': ['x', ' '], 'boolean': ['0', '1', 'true', 'false'],
        'category': ['population', 'buildings'],
        'IMTstr': ['PGA', 'SA(0.1)'], 'none_or_float': ['', '1'],
        'none_or_bool': ['', 'true'], 'choice': ['aggregated', 'per_asset'],
        'unexplained': ['', 'x1'], 'explained_twice': ['', '0', '1e3']}
REAL_CASTS = {
    'Location': ['positiveint', 'longitude', 'latitude'],
    'Exposure': ['not_empty', 'category', 'str', 'str', 'choice', 'str',
                 'none_or_bool', 'none_or_bool'],
    'CostType': ['str', 'choice', 'str', 'choice', 'str'],
    'Asset': ['positiveint', 'str', 'not_empty', 'positivefloat',
              'none_or_float'],
    'Occupancy': ['str', 'str', 'positivefloat'],
    'Cost': ['str', 'str', 'positivefloat', 'none_or_float',
             'none_or_float', 'none_or_float'],
    'DiscreteVulnerabilitySet': ['str', 'category', 'str', 'IMTstr'],
    'DiscreteVulnerabilityData': ['str', 'str', 'float', 'float', 'float'],
    'FFSetDiscrete': ['int', 'not_empty', 'none_or_float', 'IMTstr', 'str'],
    'FFDataDiscrete': ['str', 'int', 'float', 'probability'],
    'FFDataContinuous': ['str', 'int', 'str', 'float'],
    'GmfData': ['int', 'str', 'str', 'float', 'float', 'float'],
}


def valid_row(specs, name):
    casts = REAL_CASTS[name] if specs is None else [
        c for _, c in specs[0]['fields']]
    return st.tuples(*[st.sampled_from(GOOD[c]) for c in casts]).map(list)


def constraint_holds(con, names, row):
    kind, fields = con
    vals = [row[names.index(f)] for f in fields]
    if kind == 'same_empty':
        return len(set(v == '' for v in vals)) == 1
    return len(set(vals)) == len(vals)


# ---------------------------------------------------------------- R01
R01 = Prop('R01', '''a record type of the package or a made-up one (1-6 fields
of 19 kinds, optional record constraints) and 1-5 rows of texts, some valid;
non-trivial when a row is fully valid and another has an invalid field''')


@R01.target(typed_rows(5), 3500)
def casting(ctx, case):
    """casting a record gives the typed named tuple iff every field is valid,
    otherwise it names exactly the invalid fields, in order, with the reason;
    to_tuple, is_valid and attribute access agree with it"""
    got = ctx.call('record.casting', specs=case['specs'], name=case['name'],
                   rows=case['rows'])
    names = REAL[case['name']][0] if case['specs'] is None else [
        f for f, _ in case['specs'][0]['fields']]
    seen = set()

    def holds(row):
        if case['specs'] is None:
            return case['name'] != 'Exposure' or (
                (row[4] == '') == (row[5] == ''))
        return all(constraint_holds(c, names, row)
                   for c in case['constraints'])

    for i, (row, g) in enumerate(zip(case['rows'], got)):
        oks = [d[0] for d in g['direct']]
        errors = [[n, d[1]] for n, d in zip(names, g['direct']) if not d[0]]
        ctx.equal(g['row'], row, 'stored row')
        ctx.equal(g['after'], row, 'row after casting')
        if all(oks):
            seen.add('valid')
            ctx.equal(g['cast'], {'same': True, 'fields': names, 'tuple': True,
                                  'by_name': [True] * len(names)},
                      'cast of %s' % row)
            ctx.equal(g['to_tuple'], ['ok', True], 'to_tuple of %s' % row)
        else:
            seen.add('invalid')
            ctx.label('%d invalid fields' % min(3, len(errors)))
            ctx.expect(g['cast'] is None, 'cast of the invalid %s: %s', row, g)
            inv = g['invalid']
            ctx.expect(inv['is_invalid'], 'not an InvalidRecord')
            ctx.equal(inv['errors'], errors, 'errors of %s' % row)
            ctx.equal(inv['record'], row, 'failing record')
            ctx.equal(g['to_tuple'], ['invalid', errors], 'to_tuple')
            check_text(ctx, inv, names, case['name'], 0)
        cons = holds(row)
        if all(oks) and not cons:
            seen.add('constraint')
            ctx.label('broken constraint')
        ctx.equal(g['is_valid'], all(oks) and cons, 'is_valid of %s' % row)
        ctx.equal(g['by_index'], oks, 'is_valid(i) of %s' % row)
        ctx.equal(g['by_name'], oks, 'is_valid(name) of %s' % row)
        ctx.equal(g['attrs'], [['ok', True, True] if d[0] else ['bad', d[1]]
                               for d in g['direct']], 'attributes of %s' % row)
        # the texts of the next row written where they are accepted
        j = (i + 1) % len(got)
        row2 = [b if ok else a for a, b, (ok, _) in
                zip(row, case['rows'][j], got[j]['direct'])]
        oks2 = [a or ok for a, (ok, _) in zip(oks, got[j]['direct'])]
        valid2 = all(oks2) and holds(row2)
        if valid2 and not (all(oks) and cons):
            ctx.label('invalid record corrected')
        ctx.equal(g['changed'], {
            'row': row2, 'is_valid': valid2, 'by_index': oks2, 'same': True,
            'errors': [n for n, ok in zip(names, oks2) if not ok] or None,
            'again': valid2}, '%s, changed to %s' % (row, row2))
    ctx.nontrivial('valid' in seen and 'invalid' in seen)


@st.composite
def family_case(draw):
    specs = []
    steps = []
    rows = []
    todo = draw(st.integers(2, 4))
    while len(specs) < todo or draw(st.integers(0, 7)):
        what = draw(st.sampled_from(['declare', 'check', 'check', 'ask',
                                     'ask', 'ask']))
        if len(steps) > 20:
            break
        if what == 'declare' or not specs:
            if len(specs) >= todo:
                continue
            k = len(specs)
            names = ['%s%d' % (n, k) for n in draw(st.lists(
                st.sampled_from('abc'), min_size=2, max_size=3, unique=True))]
            spec = {'name': 'T%d' % k, 'uniques': [], 'fkeys': [],
                    'fields': [[n, draw(st.sampled_from(
                        ['str', 'str', 'positiveint', 'name']))]
                        for n in names],
                    'pkey': [names[0]], 'base': None, 'all': [], 'cons': []}
            if specs and draw(st.integers(0, 3)):
                base = draw(st.sampled_from(specs))
                spec['base'] = base['name']
                spec['bases'] = [base['name']]
                spec['all'] = list(base['all'])
                if draw(st.booleans()):
                    spec['pkey'] = None
            spec['all'] = spec['all'] + spec['fields']
            specs.append(spec)
            steps.append(['declare', spec['name']])
            continue
        spec = draw(st.sampled_from(specs))
        if what == 'check':
            con = [draw(st.sampled_from(['same_empty', 'distinct'])),
                   draw(st.lists(st.sampled_from([n for n, _ in spec['all']]),
                                 min_size=2, max_size=2, unique=True))]
            steps.append(['check', spec['name'], con])
        else:
            rows.append([draw(st.one_of(
                st.sampled_from(['', 'x', 'x', '1'])
                if c == 'str' else st.sampled_from(GOOD[c]),
                st.just('1 1'))) for _, c in spec['all']])
            steps.append(['ask', spec['name'], len(rows) - 1])
    return {'specs': specs, 'steps': steps, 'rows': rows}


@R01.target(family_case(), 1500)
def checks_of_a_family(ctx, case):
    """a constraint added to a record type, whenever it is added, is a
    condition for the records of that type and is none for the records of the
    types it derives from, nor of its sisters"""
    got = ctx.call('record.family', specs=case['specs'],
                   checks=case['steps'], rows=case['rows'])
    spec = {s['name']: s for s in case['specs']}
    cons = {n: [] for n in spec}
    answers = iter(got)
    inherited = refused = False
    for step in case['steps']:
        kind, name = step[:2]
        if kind == 'check':
            cons[name].append(step[2])
        elif kind == 'ask':
            row = case['rows'][step[2]]
            names = [n for n, _ in spec[name]['all']]
            valid, each, table = next(answers)
            mine = all(constraint_holds(c, names, row) for c in cons[name])
            # whether the constraints of the base types hold for the derived
            # ones is not specified
            base, above = spec[name]['base'], True
            while base:
                above &= all(constraint_holds(c, names, row)
                             for c in cons[base])
                base = spec[base]['base']
            want = all(each) and mine
            if above or not want:
                ctx.equal([valid, table], [want, want],
                          '%s(%s) with the checks %s' % (name, row, cons))
            if all(each) and not mine:
                refused = True
            others = [n for n in spec if n != name and cons[n]]
            inherited |= bool(others) and any(
                spec[n]['base'] for n in spec)
    ctx.nontrivial(inherited and refused)


def check_text(ctx, inv, names, where, rowno, messages=True):
    """the printed form has one line per invalid field, with its position"""
    text = inv['str']
    pos = 0
    for f, m in inv['errors']:
        line = '%s[%s]: %d,%d: %s' % (where, f, rowno, names.index(f), m)
        at = text.find(line, pos)
        ctx.expect(at >= 0 and (at == 0 or text[at - 1] == '\n'),
                   'printed error %r lacks %r', text, line)
        pos = at + len(line)
    ctx.expect(pos == len(text), 'printed error has more: %r', text)


# ---------------------------------------------------------------- R04
R04 = Prop('R04', '''a record type and 1-12 rows of texts, given as a list or
as a table, searched completely or for the first k; non-trivial when there are
both valid and invalid rows''')


@st.composite
def find_case(draw):
    case = draw(typed_rows(12))
    case['take'] = draw(st.one_of(st.none(), st.integers(1, 4)))
    case['table'] = False
    # records which are alike are the same object
    case['shared'] = draw(st.booleans())
    if draw(st.booleans()):
        # as a table: the rows must respect the unique constraints
        if case['specs'] is None:
            names, pkey, uniq = REAL[case['name']]
        else:
            spec = case['specs'][0]
            names = [f for f, _ in spec['fields']]
            pkey, uniq = spec['pkey'], [u for _, u in spec['uniques']]
        seen = set()
        rows = []
        for r in case['rows']:
            ks = [(i, tuple(r[names.index(f)] for f in u))
                  for i, u in enumerate([pkey] + uniq)]
            if not any(k in seen for k in ks):
                seen.update(ks)
                rows.append(r)
        case['rows'] = rows
        case['table'] = True
    return case


@R04.target(find_case(), 3000)
def finding_invalid_rows(ctx, case):
    """the search for invalid rows reports exactly the rows with an invalid
    field, in order, with row number, columns and reasons; a table is valid
    iff all its records are"""
    got = ctx.call('record.find_invalid', specs=case['specs'],
                   name=case['name'], rows=case['rows'], take=case['take'],
                   table=case['table'], shared=case['shared'])
    want = [(i, errs) for i, errs in enumerate(got['direct']) if errs]
    full = want
    if case['take'] is not None:
        want = want[:case['take']]
    ctx.equal([[g['rowno'], g['errors']] for g in got['found']],
              [list(w) for w in want], 'invalid rows')
    if got['read'] is not None:
        ctx.equal(got['read'], [i + 1 for i, _ in want],
                  'records read before each invalid one')
    for g in got['found']:
        ctx.equal(g['record'], case['rows'][g['rowno']], 'failing record')
        check_text(ctx, g, got['fieldnames'], got['name'], g['rowno'])
    if case['table']:
        ctx.equal(got['valid'], all(got['each']), 'table.is_valid()')
        ctx.label('table')
    ctx.nontrivial(full and len(full) < len(case['rows']))


# ---------------------------------------------------------------- R02
R02 = Prop('R02', '''a record and a sequence of 1-12 reads, writes and
comparisons by position and by name; non-trivial when a write succeeds and
another is refused''')


@st.composite
def ops_case(draw):
    base = draw(typed_rows(1))
    names = REAL[base['name']][0] if base['specs'] is None else [
        f for f, _ in base['specs'][0]['fields']]
    n = len(names)
    row = draw(valid_row(base['specs'], base['name']))
    if draw(st.integers(0, 2)) == 0:    # some fields invalid from the start
        row = [draw(st.one_of(st.just(v), value)) for v in row]
    casts = REAL_CASTS[base['name']] if base['specs'] is None else [
        c for _, c in base['specs'][0]['fields']]
    others = [['list', row], ['rec', row], ['tuple', row], ['list', row[:-1]],
              ['list', row + ['x']], ['list', []],
              ['list', [[v] for v in row]], ['list', [None] * n],
              ['list', row[:-1] + [{}]], ['alien', row],
              ['alien', row + ['x']]]
    for i in range(n):
        r = list(row)
        r[i] = r[i] + '1'
        others.append(['rec', r])
        others.append(['list', r])
        others.append(['alien', r])
    index = st.one_of(st.integers(-n - 1, n), st.sampled_from(names),
                      st.sampled_from(names), st.just('nosuch'))

    @st.composite
    def setop(draw):
        i = draw(st.integers(0, n - 1))
        v = draw(st.one_of(st.sampled_from(GOOD[casts[i]]), value,
                           st.just(row[i])))
        return ['set', draw(st.sampled_from([i, names[i], i - n])), v]
    ops = draw(st.lists(st.one_of(
        setop(), setop(), setop(),
        st.tuples(st.just('set'), index, value),
        st.tuples(st.just('get'), index),
        st.tuples(st.just('eq'), st.integers(0, len(others) - 1)),
        st.sampled_from([('len',), ('iter',), ('str',), ('reversed',)]),
        st.tuples(st.sampled_from(['in', 'index', 'count']),
                  st.one_of(value, st.sampled_from(row))),
        st.tuples(st.just('valid'), st.sampled_from(names)),
    ).map(list), min_size=1, max_size=12))
    return {'specs': base['specs'], 'name': base['name'], 'row': row,
            'names': names, 'others': others, 'ops': ops}


@R02.target(ops_case(), 2400)
def record_operations(ctx, case):
    """reading, writing and comparing a record by position or field name
    behaves as the list of its texts, except that an invalid text is refused
    with ValueError and changes nothing"""
    names = case['names']
    got = ctx.call('record.record_ops', specs=case['specs'],
                   name=case['name'], row=case['row'],
                   others=case['others'], ops=case['ops'])
    # what each field's cast says about the texts written
    texts = sorted({o[2] for o in case['ops'] if o[0] == 'set'} |
                   set(case['row']))
    table = ctx.call('record.casts_ok', specs=case['specs'],
                     name=case['name'], texts=texts)
    okay = {(i, t): table[i][j] for i in range(len(names))
            for j, t in enumerate(texts)}
    model = list(case['row'])
    good = bad = 0
    for op, (g, after) in zip(case['ops'], got):
        kind = op[0]
        ctx.label(kind)
        if kind in ('get', 'set'):
            i = op[1]
            if isinstance(i, str):
                pos = names.index(i) if i in names else None
                err = 'KeyError'
            else:
                pos = i if -len(names) <= i < len(names) else None
                err = 'IndexError'
            if pos is None:
                ctx.expect('exc' in g and err in g['mro'],
                           '%s: expected %s, got %s', op, err, g)
            elif kind == 'get':
                ctx.equal(g, {'ok': model[pos]}, str(op))
            elif okay[pos % len(names), op[2]]:
                ctx.equal(g, {'ok': None}, str(op))
                model[pos] = op[2]
                good += 1
            else:
                ctx.expect('exc' in g and 'ValueError' in g['mro'],
                           '%s: expected ValueError, got %s', op, g)
                bad += 1
        elif kind == 'eq':
            o = case['others'][op[1]][1]
            ctx.equal(g, {'ok': [model == o, model != o]},
                      '%s == %s' % (model, o))
        elif kind == 'index' and op[1] not in model:
            ctx.expect('exc' in g and 'ValueError' in g['mro'],
                       '%s: expected ValueError, got %s', op, g)
        elif kind == 'valid':
            i = names.index(op[1])
            if (i, model[i]) in okay:
                ctx.equal(g, {'ok': okay[i, model[i]]}, str(op))
        else:
            want = {'len': lambda: len(names), 'iter': lambda: model,
                    'str': lambda: ','.join(model),
                    'reversed': lambda: model[::-1],
                    'in': lambda: op[1] in model,
                    'index': lambda: model.index(op[1]),
                    'count': lambda: model.count(op[1])}[kind]()
            ctx.equal(g, {'ok': want}, str(op))
        ctx.equal(after, model, 'record after %s' % op)
    ctx.nontrivial(good and bad)


# ---------------------------------------------------------------- R03
R03 = Prop('R03', '''1-4 declarations of record types, some derived from
earlier ones, with unique and foreign keys, some of them wrong (no primary key,
reserved names, repeated names in a constraint); non-trivial when a type of at
least three fields is declared and there is inheritance or a refusal''')
RESERVED = ['fields', 'fieldnames', '_name2index', '_ntuple', '_ordinal']


@st.composite
def declarations(draw):
    specs = []
    for k in range(draw(st.integers(1, 4))):
        name = 'T%d' % k
        pool = NAMES if k % 3 == 0 else [n + 'qz'[k % 3 - 1] for n in NAMES]
        names = draw(st.lists(st.sampled_from(pool), min_size=1, max_size=7,
                              unique=True))
        spec = {'name': name, 'uniques': [], 'fkeys': [],
                'fields': [[n, draw(st.sampled_from(CASTS))] for n in names],
                # the name given to a field is replaced by its attribute's
                'named': draw(st.sampled_from([None, None, 'other', names[0],
                                               names[-1]])),
                'constraints_first': draw(st.booleans())}
        good = [s for s in specs if 'bad' not in s]
        allnames = list(names)
        cand = [s for s in good if not set(s['all']) & set(names)]
        bases = []
        for base in draw(st.permutations(cand))[:draw(
                st.sampled_from([0, 1, 1, 2]))]:
            if not any(set(base['all']) & set(b['all']) for b in bases):
                bases.append(base)
        if bases:
            spec['bases'] = [b['name'] for b in bases]
            # in the order of declaration, whatever the order of the bases
            above = set(sum([b['all'] for b in bases], []))
            allnames = [n for b in specs for n, _ in b['fields']
                        if 'bad' not in b and n in above] + names
        spec['all'] = allnames
        if not bases or draw(st.booleans()):
            spec['pkey'] = draw(st.lists(st.sampled_from(allnames), min_size=1,
                                         max_size=3, unique=True))
            spec['pkey_eff'] = spec['pkey']
        else:
            spec['pkey_eff'] = bases[0]['pkey_eff']
        for attr in draw(st.sampled_from([[], ['unique'], ['u1', 'u2']])):
            spec['uniques'].append([attr, draw(st.lists(
                st.sampled_from(allnames), min_size=1, max_size=3,
                unique=True))])
        targets = [s for s in good if 'pkey' in s]
        if targets and draw(st.booleans()):
            t = draw(st.sampled_from(targets))
            n = len(t['pkey'])
            if len(allnames) >= n:
                spec['fkeys'].append(['fkey', t['name'], 'pkey', draw(st.lists(
                    st.sampled_from(allnames), min_size=n, max_size=n,
                    unique=True))])
        bad = draw(st.sampled_from([None] * 6 + ['pkey', 'reserved', 'dup']))
        if bad == 'pkey' and not bases:
            spec['bad'] = 'AttributeError'
            spec['pkey'] = None
        elif bad == 'reserved':
            spec['bad'] = 'NameError'
            spec['extra'] = [[draw(st.sampled_from(RESERVED)), draw(
                st.sampled_from(['None', 'record.Field(int)', '[]']))]]
        elif bad == 'dup':
            spec['bad'] = 'AssertionError'
            n = draw(st.sampled_from(names))
            rest = [m for m in names if m != n]
            many = draw(st.permutations([n, n] + rest[:draw(
                st.integers(0, 2))]))
            spec['uniques'] = [['unique', list(many)]]
        specs.append(spec)
    return {'specs': specs}


@R03.target(declarations(), 2500)
def declarations_(ctx, case):
    """a record type has the fields of its bases and its own in the order they
    were declared; records are built by position or name with '' as default;
    keys give the texts of their fields; a wrong declaration is refused"""
    got = ctx.call('record.declare', specs=case['specs'])
    last = None
    refused = derived = big = False
    for spec, g in zip(case['specs'], got):
        if 'bad' in spec:
            refused = True
            ctx.label('refused: ' + spec['bad'])
            ctx.expect('exc' in g and spec['bad'] in g['mro'],
                       'wrong declaration %s: expected %s, got %s', spec,
                       spec['bad'], g)
            continue
        ctx.expect('ok' in g, 'declaration %s refused: %s', spec, g)
        g = g['ok']
        names = spec['all']
        n = len(names)
        derived |= 'bases' in spec
        ctx.label('bases=%d' % len(spec.get('bases', ())))
        big |= n >= 3
        ctx.equal(g['fieldnames'], names, 'fieldnames')
        ctx.equal(g['fields'], names, 'fields')
        ctx.equal([g['len'], g['reclen']], [n, n], 'lengths')
        ctx.equal(g['index'], list(range(n)), 'positions')
        row = ['v%d' % i for i in range(n)]
        ctx.equal(g['full'], row, 'record built by position')
        ctx.equal(g['byname'], row, 'fields by name')
        ctx.equal(g['empty'], [''] * n, 'default record')
        ctx.equal(g['bykw'], ['k' + f for f in names], 'record built by name')
        ctx.equal(g['part'], ['p'] * (n // 2) + [''] * (n - n // 2), 'partial')
        for k in ('too_many', 'unknown'):
            ctx.expect('exc' in g[k] and 'TypeError' in g[k]['mro'],
                       '%s arguments accepted: %s', k, g[k])
        val = lambda fs: [row[names.index(f)] for f in fs]
        ctx.equal(g['pkey'], val(spec['pkey_eff']), 'primary key')
        uniques = [[a, fs] for a, fs in spec['uniques']]
        if spec.get('pkey'):
            uniques.append(['pkey', spec['pkey']])
        ctx.equal(g['uniques'], sorted(uniques), 'unique constraints')
        ctx.expect(g['unique_owner'], 'a constraint belongs to another type')
        ctx.equal(g['unique_values'],
                  [[a, val(fs)] for a, fs in spec['uniques']], 'unique values')
        ctx.equal(g['fkeys'], [[a, fs, t, ta]
                               for a, t, ta, fs in spec['fkeys']], 'fkeys')
        ctx.equal(g['fk_values'],
                  [[a, val(fs)] for a, t, ta, fs in spec['fkeys']],
                  'foreign key values')
        ctx.expect(last is None or g['ordinal'] is None or
                   g['ordinal'] > last,
                   'declaration order lost')
        last = g['ordinal']
        ctx.equal([g['repr'], g['name']],
                  ['<class %s>' % spec['name'], spec['name']], 'names')
    if derived:
        ctx.label('inheritance')
    ctx.nontrivial(big and (derived or refused))


# ---------------------------------------------------------------- T01
T01 = Prop('T01', '''a record type with a primary key and 0-2 further unique
constraints and a history of 1-25 insertions, replacements, deletions and
lookups over a small set of keys; non-trivial when a duplicate was refused and
a later operation changed the table''')
small = st.sampled_from(['', '0', '1', '2', 'a', '1.0', ' 1', '1 '])


@st.composite
def table_case(draw, max_ops=25):
    if draw(st.integers(0, 3)) == 0:
        name = draw(st.sampled_from(['Location', 'Asset', 'Occupancy',
                                     'FFDataDiscrete', 'GmfData']))
        specs = None
        names, pkey, uniq = REAL[name]
        uniques = [pkey] + uniq
    else:
        spec = draw(rectype(casts=['str'], max_fields=4))
        specs, name = [spec], spec['name']
        names = [f for f, _ in spec['fields']]
        pkey = spec['pkey']
        uniques = [pkey] + [u for _, u in spec['uniques']]
    row = st.lists(small, min_size=len(names), max_size=len(names))
    initial = draw(st.one_of(st.just([]), st.lists(row, max_size=3)))
    pos = st.integers(-3, 6)
    ops = draw(long_lists(st.one_of(
        st.tuples(st.just('insert'), pos, row),
        st.tuples(st.just('append'), row),
        st.tuples(st.just('append'), row),
        st.tuples(st.just('set'), pos, row),
        st.tuples(st.just('set'), pos, row),
        st.tuples(st.just('del'), pos),
        st.tuples(st.just('pop'), pos),
        st.tuples(st.just('remove'), row),
        st.tuples(st.just('extend'), st.lists(row, max_size=3)),
        st.tuples(st.just('get'), pos),
        st.tuples(st.sampled_from(['index', 'in']), row),
        st.sampled_from([('reverse',), ('str',), ('valid',)]),
        st.tuples(st.just('eq'), st.lists(row, max_size=3)),
    ).map(list), 1, max_ops))
    return {'specs': specs, 'name': name, 'initial': initial, 'ops': ops,
            'names': names, 'uniques': uniques}


class TableModel:
    def __init__(self, names, uniques):
        self.names, self.uniques, self.rows = names, uniques, []
        self.idx = [[names.index(f) for f in u] for u in uniques]

    def keys(self, row):
        return [tuple(row[i] for i in ix) for ix in self.idx]

    def clash(self, row, but=None):
        return any(k == k2 for j, r in enumerate(self.rows) if j != but
                   for k, k2 in zip(self.keys(row), self.keys(r)))

    def insert(self, pos, row):
        if self.clash(row):
            return False
        self.rows.insert(pos, row)
        return True

    def lookup(self, key):
        for r in self.rows:
            if list(self.keys(r)[0]) == list(key):
                return r
        return None


def apply_table_op(ctx, m, op, g, fail):
    """run op on the model m and compare the answer; True if it was refused"""
    kind = op[0]
    n = len(m.rows)

    def refused(*names):
        fail('exc' in g and any(x in g['mro'] for x in names), names)
        return True
    inrange = lambda p: -n <= p < n
    if kind in ('insert', 'append'):
        row = op[-1]
        pos = op[1] if kind == 'insert' else n
        if m.clash(row):
            return refused('KeyError')
        m.rows.insert(pos, row)
        ctx.equal(g, {'ok': None}, str(op))
    elif kind == 'extend':
        for row in op[1]:
            if not m.insert(len(m.rows), row):
                return refused('KeyError')
        ctx.equal(g, {'ok': None}, str(op))
    elif kind == 'set':
        if not inrange(op[1]):
            return refused('IndexError')
        if m.clash(op[2], op[1] % n):
            return refused('KeyError')
        m.rows[op[1]] = op[2]
        ctx.equal(g, {'ok': None}, str(op))
    elif kind in ('del', 'pop', 'get'):
        if not inrange(op[1]):
            refused('IndexError')
            return False
        want = m.rows[op[1]]
        if kind != 'get':
            del m.rows[op[1]]
        ctx.equal(g, {'ok': None if kind == 'del' else want}, str(op))
    elif kind in ('remove', 'index'):
        if op[1] not in m.rows:
            refused('ValueError')
            return False
        i = m.rows.index(op[1])
        if kind == 'remove':
            del m.rows[i]
        ctx.equal(g, {'ok': None if kind == 'remove' else i}, str(op))
    elif kind == 'in':
        ctx.equal(g, {'ok': op[1] in m.rows}, str(op))
    elif kind == 'eq':
        ctx.equal(g, {'ok': [m.rows == op[1], m.rows != op[1]]}, str(op))
    elif kind == 'str':
        ctx.equal(g, {'ok': '\n'.join(map(','.join, m.rows))}, str(op))
    elif kind == 'reverse':
        # a table may refuse to be reversed in place, without effect
        if 'ok' in g:
            m.rows.reverse()
    return False


@T01.target(table_case(), 2000)
def table_histories(ctx, case):
    """after any history no two records of a table share the value of a
    unique constraint, lookup by primary key finds exactly the stored records,
    a duplicate is refused with KeyError and a refused operation changes
    nothing"""
    m = TableModel(case['names'], case['uniques'])
    keys = set()
    for r in case['initial']:
        keys.add(m.keys(r)[0])
    for op in case['ops']:
        for r in op[1:]:
            if isinstance(r, list):
                for r in ([r] if not r or isinstance(r[0], str) else r):
                    if len(r) == len(m.names):
                        keys.add(m.keys(r)[0])
    probes = [list(k) for k in sorted(keys)]
    got = ctx.call('record.table_history', specs=case['specs'],
                   name=case['name'], initial=case['initial'],
                   ops=case['ops'], probes=probes)
    for r in case['initial']:
        if not m.insert(len(m.rows), r):
            ctx.expect(isinstance(got['init'], dict) and
                       'KeyError' in got['init'].get('mro', ()),
                       'duplicates accepted at creation: %s', got['init'])
            ctx.label('refused at creation')
            return
    ctx.expect(got['init'] == 'ok', 'table not created: %s', got['init'])
    was_refused = later = False
    for op, (g, state) in zip(case['ops'], got['ops']):
        def fail(cond, names):
            ctx.expect(cond, '%s on %s: expected %s, got %s', op, m.rows,
                       names, g)
        before = list(m.rows)
        if apply_table_op(ctx, m, op, g, fail):
            was_refused = True
            ctx.label('refused ' + op[0])
        if before != m.rows:
            later |= was_refused
            ctx.label('done ' + op[0])
        ctx.equal(state['rows'], m.rows, 'table after %s' % op)
        ctx.equal(state['len'], len(m.rows), 'length after %s' % op)
        ctx.equal(state['look'], [m.lookup(p) for p in probes],
                  'lookups of %s after %s' % (probes, op))
    ctx.nontrivial(was_refused and later)


# ---------------------------------------------------------------- T04
T04 = Prop('T04', '''a table of 0-8 records of a type of the package or a
made-up one, and 1-10 questions: positions and slices, searches of rows and
records, comparisons with lists, tuples and tables that differ in a cell, a row
or the order, printing, validity, nodes by primary key; non-trivial when the
table has at least two records and is searched, sliced or compared''')


@st.composite
def reading_case(draw):
    real = draw(st.booleans())
    if real:
        name = draw(st.sampled_from(sorted(REAL)))
        specs = None
        names, pkey, uniq = REAL[name]
        uniques = [pkey] + uniq
        casts = REAL_CASTS[name]
    else:
        spec = draw(rectype(max_fields=draw(st.sampled_from([1, 4, 4, 4]))))
        specs, name = [spec], spec['name']
        names = [f for f, _ in spec['fields']]
        casts = [c for _, c in spec['fields']]
        uniques = [spec['pkey']] + [u for _, u in spec['uniques']]
    # mostly valid cells; the key ones of made up types vary
    cells = [st.one_of(st.sampled_from(GOOD[c]), st.sampled_from(GOOD[c]),
                       value) for c in casts]
    rows = []
    model = TableModel(names, uniques)
    allvalid = draw(st.booleans())
    for r in draw(long_lists(st.tuples(*(
            [st.sampled_from(GOOD[c] + (['3', '4', '5'] if c in (
                'int', 'str', 'positiveint') else [])) for c in casts]
            if allvalid else cells)).map(list), 0, 8)):
        model.insert(len(model.rows), r)
    rows = model.rows
    n = len(rows)

    @st.composite
    def arow(draw):
        if rows and draw(st.booleans()):
            r = list(draw(st.sampled_from(rows)))
            if draw(st.booleans()):
                i = draw(st.integers(0, len(r) - 1))
                r[i] = draw(cells[i])
            return r
        return list(draw(st.tuples(*cells)))

    @st.composite
    def others(draw):
        kind = draw(st.sampled_from(['rows', 'tuples', 'recs', 'table']))
        out = [list(r) for r in rows]
        how = draw(st.integers(0, 5))
        if how == 1 and out:
            i = draw(st.integers(0, n - 1))
            j = draw(st.integers(0, len(out[i]) - 1))
            out[i][j] += draw(st.sampled_from(['0', ' ', 'x']))
        elif how == 2 and out:
            del out[draw(st.sampled_from([0, -1, n // 2]))]
        elif how == 3:
            out = out[::-1]
        elif how == 4:
            out.append(draw(arow()))
        if kind == 'table':
            m = TableModel(names, uniques)
            for r in out:
                m.insert(len(m.rows), r)
            out = m.rows
        return ['eq', kind, out]
    idx = st.one_of(st.none(), st.integers(-n - 1, n + 1))
    ops = draw(st.lists(st.one_of(
        st.tuples(st.just('get'), st.integers(-n - 1, n)),
        st.tuples(st.just('slice'), st.tuples(idx, idx, st.sampled_from(
            [None, None, 1, 2, -1])).map(list)),
        st.tuples(st.sampled_from(['in', 'index', 'count']), arow()),
        others(), others(),
        st.sampled_from([('str',), ('len',), ('iter',), ('reversed',),
                         ('valid',), ('nodes',)]),
    ).map(list), min_size=1, max_size=10))
    if not real or not allvalid or 'Data' in name and name != 'GmfData':
        ops = [o for o in ops if o != ['nodes']]
    return {'specs': specs, 'name': name, 'rows': rows, 'ops': ops,
            'pkey': [names.index(f) for f in uniques[0]]}


@T04.target(reading_case(), 1500)
def table_reading(ctx, case):
    """A table answers as the list of its records, and asking changes
    nothing"""
    rows = case['rows']
    n = len(rows)
    res = ctx.call('record.table_reading', specs=case['specs'],
                   name=case['name'], rows=rows, ops=case['ops'])
    asked = False
    for op, (g, after) in zip(case['ops'], res['ops']):
        kind = op[0]
        ctx.label(kind)
        ctx.equal(after, rows, 'table after %s' % op)
        if kind == 'get' and not -n <= op[1] < n:
            ctx.expect('exc' in g and 'IndexError' in g['mro'],
                       '%s: expected IndexError, got %s', op, g)
            continue
        if kind == 'index' and op[1] not in rows:
            ctx.expect('exc' in g and 'ValueError' in g['mro'],
                       '%s: expected ValueError, got %s', op, g)
            continue
        asked |= kind in ('slice', 'in', 'index', 'count', 'eq')
        if kind == 'eq':
            same = rows == op[2]
            ctx.label('equal' if same else 'different')
            if op[1] == 'table':
                ctx.equal(g, {'ok': [same, not same] * 2}, str(op))
            else:
                ctx.expect('ok' in g, '%s: %s', op, g)
                ctx.equal(g['ok'][:2], [same, not same], str(op))
            continue
        want = {'get': lambda: rows[op[1]],
                'slice': lambda: rows[slice(*op[1])],
                'in': lambda: [op[1] in rows] * 2,
                'index': lambda: [rows.index(op[1])] * 2,
                'count': lambda: [rows.count(op[1])] * 2,
                'str': lambda: '\n'.join(map(','.join, rows)),
                'len': lambda: [n, n > 0],
                'iter': lambda: [rows, True],
                'reversed': lambda: rows[::-1],
                'valid': lambda: all(res['each']),
                'nodes': lambda: [[[r[i] for i in case['pkey']], True, True]
                                  for r in rows]}[kind]()
        ctx.equal(g, {'ok': want}, '%s of %s' % (op, rows))
    ctx.nontrivial(n > 1 and asked)


# ---------------------------------------------------------------- T02
T02 = Prop('T02', '''2-4 related record types (parents, children with one- or
two-field foreign keys to a primary or other unique key, grandchildren, two
parents) and a history of 1-25 insertions, deletions and replacements; a
history is non-trivial when one insertion was refused for a missing parent and
a child was inserted''')


@st.composite
def tableset_case(draw):
    specs = []
    for k in range(draw(st.integers(2, 4))):
        names = draw(st.lists(st.sampled_from('abcd'), min_size=2, max_size=3,
                              unique=True))
        spec = {'name': 'T%d' % k, 'fields': [[n, 'str'] for n in names],
                'pkey': draw(st.lists(st.sampled_from(names), min_size=1,
                                      max_size=2, unique=True)),
                'uniques': [], 'fkeys': [],
                'constraints_first': draw(st.booleans())}
        if draw(st.integers(0, 3)) == 0:
            spec['uniques'] = [['unique', draw(st.lists(
                st.sampled_from(names), min_size=1, max_size=2,
                unique=True))]]
        if specs:
            for j in range(draw(st.sampled_from([1, 1, 1, 0, 2]))):
                t = draw(st.sampled_from(specs))
                tattr, tnames = draw(st.sampled_from(
                    [['pkey', t['pkey']]] + t['uniques']))
                spec['fkeys'].append(['fkey%d' % j, t['name'], tattr, draw(
                    st.lists(st.sampled_from(names), min_size=len(tnames),
                             max_size=len(tnames), unique=True))])
        specs.append(spec)
    order = [s['name'] for s in specs]
    vals = st.sampled_from(draw(st.sampled_from(
        [['0', '1'], ['0', '1', '0', '1', '', '2'], ['0', '1', '2']])))

    @st.composite
    def typed_row(draw):
        s = draw(st.sampled_from(specs))
        return [s['name'], draw(st.lists(vals, min_size=len(s['fields']),
                                         max_size=len(s['fields'])))]
    tr = typed_row()
    n = len(specs)
    children = [s for s in specs if s['fkeys']]
    if children and draw(st.booleans()):
        # around one foreign key: a parent, children, the parent goes or
        # changes, children again
        child = draw(st.sampled_from(children))
        _, pname, pattr, fields = draw(st.sampled_from(child['fkeys']))
        parent = [s for s in specs if s['name'] == pname][0]
        pfields = parent['pkey'] if pattr == 'pkey' else dict(
            parent['uniques'])[pattr]
        key = draw(st.lists(vals, min_size=len(fields), max_size=len(fields)))

        def a_row(s, where, key):
            row = draw(st.lists(vals, min_size=len(s['fields']),
                                max_size=len(s['fields'])))
            names = [f for f, _ in s['fields']]
            for f, v in zip(where, key):
                row[names.index(f)] = v
            return row
        ops = []
        for _ in range(draw(st.integers(4, 16))):
            k = draw(st.sampled_from([key, key, key, None])) or draw(
                st.lists(vals, min_size=len(fields), max_size=len(fields)))
            op = draw(st.sampled_from(['parent', 'parent', 'child', 'child',
                                       'child', 'delparent', 'setparent',
                                       'delchild', 'check']))
            if op == 'parent':
                ops.append(['insert', pname, a_row(parent, pfields, k)])
            elif op in ('child', 'check'):
                ops.append(['insert' if op == 'child' else 'check',
                            child['name'], a_row(child, fields, k)])
            elif op == 'setparent':
                ops.append(['set', pname, draw(st.integers(0, 1)),
                            a_row(parent, pfields, k)])
            else:
                ops.append(['del', pname if op == 'delparent'
                            else child['name'], draw(
                                st.sampled_from([0, 0, 1]))])
        grand = [g for g in specs if g is not child]
        first = [['insert', s['name'], draw(st.lists(
            vals, min_size=len(s['fields']), max_size=len(s['fields'])))]
            for s in grand]
        return {'specs': specs, 'order': order, 'ops': first + ops}
    ops = draw(long_lists(st.one_of(
        tr.map(lambda x: ['insert'] + x), tr.map(lambda x: ['insert'] + x),
        tr.map(lambda x: ['insert'] + x), tr.map(lambda x: ['insert'] + x),
        tr.map(lambda x: ['check'] + x),
        st.lists(tr, min_size=1, max_size=3).map(lambda x: ['insert_all', x]),
        st.tuples(st.sampled_from(order), st.integers(0, 3)).map(
            lambda x: ['del'] + list(x)),
        st.tuples(tr, st.integers(0, 2)).map(
            lambda x: ['set', x[0][0], x[1], x[0][1]]),
        st.just(['iter']),
        st.integers(0, n).map(lambda k: ['slice', 0, k]),
    ), 1, 20))
    # parents first: most histories then get to insert children
    first = [['insert', s['name'], draw(st.lists(
        vals, min_size=len(s['fields']), max_size=len(s['fields'])))]
        for s in specs[:draw(st.integers(0, n))]]
    return {'specs': specs, 'order': order, 'ops': first + ops}


@T02.target(tableset_case(), 1600)
def tableset_histories(ctx, case):
    """a record enters its table iff each of its foreign keys names a record
    present in the referenced table and its own keys are new; a refusal
    changes no table; iteration shows the non-empty tables in order"""
    models = {}
    byname = {s['name']: s for s in case['specs']}
    for s in case['specs']:
        names = [f for f, _ in s['fields']]
        models[s['name']] = TableModel(
            names, [s['pkey']] + [u for _, u in s['uniques']])
    keys = {n: set() for n in case['order']}
    for op in case['ops']:
        rows = []
        if op[0] in ('insert', 'check'):
            rows = [[op[1], op[2]]]
        elif op[0] == 'set':
            rows = [[op[1], op[3]]]
        elif op[0] == 'insert_all':
            rows = op[1]
        for n, r in rows:
            keys[n].add(models[n].keys(r)[0])
    probes = {n: [list(k) for k in sorted(ks)] for n, ks in keys.items()}
    got = ctx.call('record.tableset_history', specs=case['specs'],
                   order=case['order'], ops=case['ops'], probes=probes)

    def fk_ok(name, row):
        s = byname[name]
        names = models[name].names
        for _attr, tname, tattr, fields in s['fkeys']:
            vals = tuple(row[names.index(f)] for f in fields)
            tm = models[tname]
            u = 0 if tattr == 'pkey' else 1 + [
                a for a, _ in byname[tname]['uniques']].index(tattr)
            if not any(tm.keys(r)[u] == vals for r in tm.rows):
                return False
        return True
    missing = child = False
    for op, (g, state, n) in zip(case['ops'], got):
        kind = op[0]

        def refused(*names):
            ctx.expect('exc' in g and g['exc'] in names or
                       any(x in g.get('mro', ()) for x in names),
                       '%s: expected %s, got %s', op, names, g)
        if kind in ('insert', 'insert_all'):
            todo = [[op[1], op[2]]] if kind == 'insert' else op[1]
            for name, row in todo:
                if not fk_ok(name, row):
                    if models[name].clash(row):
                        refused('ForeignKeyError', 'KeyError')
                    else:
                        refused('ForeignKeyError')
                    missing = True
                    ctx.label('missing parent')
                    break
                if models[name].clash(row):
                    refused('KeyError')
                    ctx.label('duplicate')
                    break
                models[name].rows.append(row)
                if byname[name]['fkeys']:
                    child = True
                    ctx.label('child inserted')
            else:
                ctx.equal(g, {'ok': None}, str(op))
        elif kind == 'check':
            if fk_ok(op[1], op[2]):
                ctx.equal(g, {'ok': None}, str(op))
            else:
                refused('ForeignKeyError')
        elif kind == 'del':
            m = models[op[1]]
            if op[2] < len(m.rows):
                del m.rows[op[2]]
                ctx.equal(g, {'ok': None}, str(op))
            else:
                refused('IndexError')
        elif kind == 'set':
            m = models[op[1]]
            if op[2] >= len(m.rows):
                refused('IndexError')
            elif m.clash(op[3], op[2]):
                refused('KeyError')
            else:
                m.rows[op[2]] = op[3]
                ctx.equal(g, {'ok': None}, str(op))
        else:
            tabs = case['order']
            full = [[t, len(models[t].rows)] for t in tabs
                    if models[t].rows]
            if kind == 'iter':
                ctx.equal(g, {'ok': full}, 'iteration')
            else:
                part = tabs[op[1]:op[2]]
                ctx.equal(g, {'ok': [len(part), part,
                                     [f for f in full if f[0] in part]]},
                          str(op))
        ctx.equal(n, len(case['order']), 'number of tables')
        for i, (name, (sname, ordinal, s)) in enumerate(
                zip(case['order'], state)):
            ctx.equal([sname, ordinal], [name, i], 'table order')
            ctx.equal(s['rows'], models[name].rows,
                      'table %s after %s' % (name, op))
            ctx.equal(s['look'], [models[name].lookup(p)
                                  for p in probes[name]],
                      'lookups in %s after %s' % (name, op))
    ctx.nontrivial(missing and child)
