import csv
import io
from hypothesis import strategies as st
from pbt import models
from pbt.core import Prop
from pbt.gen import long_lists
from pbt.models import FIELDS, MODELS, canon, nrml
from pbt.props.conv import ascii_, spaced

ORDER = list(FIELDS)


def to_csv(rows):
    out = io.StringIO()
    csv.writer(out).writerows(rows)
    return out.getvalue()


def files_of(node, prefix):
    """the csv files of a model: one per table that is not empty"""
    t = MODELS[node[0]][0](node)
    return [['%s__%s.csv' % (prefix, name),
             to_csv([FIELDS[name].split()] + rows)]
            for name, rows in t.items() if rows]


def canon_of(node):
    return canon(MODELS[node[0]][1](node))


models_ = st.one_of(
    models.exposure(), models.fragility(), models.gmf(),
    models.vulnerability().filter(lambda n: n[3])).map(ascii_)
models_utf8 = st.one_of(
    models.exposure(), models.fragility(), models.gmf(),
    models.vulnerability().filter(lambda n: n[3]))
prefixes = st.one_of(
    st.text('abX19-_. ', min_size=1, max_size=6),
    st.sampled_from(['model', 'Model', 'A', 'a__b', 'A__b',
                     'exposure-population', '__x', 'm_']))

# ------------------------------------------------------------- C06
C06 = Prop('C06', '''models of every kind, converted from a file to an archive
of csv files in memory, in a directory or in a zip file and back, by the
manager and by the command line program; non-trivial when some table of the
model is empty or has at least three records''')


def check_csv(ctx, got, node, prefix):
    want = {}
    for name, rows in MODELS[node[0]][0](node).items():
        if rows:
            want['%s__%s.csv' % (prefix, name)] = spaced(
                [FIELDS[name].split()] + rows)
    ctx.equal({n: spaced(rows) for n, rows in got.items()}, want,
              'csv files')
    return want


ARCNAMES = st.sampled_from([
    'arc', 'arc', 'arc.zip.d', 'my.zip files', 'a.zipped', 'zip', 'a.csv',
    'a b', 'old.zip-1', 'ZIP', 'a__b'])


@C06.target(st.fixed_dictionaries({
    'name': ARCNAMES, 'node': models_, 'prefix': prefixes.filter(lambda p: p.strip() == p),
    'kind': st.sampled_from(['mem', 'dir', 'zip']),
    'out_kind': st.sampled_from(['same', 'mem', 'dir', 'zip']),
    'indent': st.sampled_from([None, 0, 2])}), 500)
def through_archives(ctx, case):
    """a file converts to csv files named after it, all valid, with a header
    and the records in order, and they convert back to a file with the same
    model"""
    node, prefix = case['node'], case['prefix']
    got = ctx.call('csv.nrml_roundtrip', nrml=nrml(node, case['indent']),
                   prefix=prefix, kind=case['kind'], name=case['name'],
                   out_kind=case['out_kind'])
    ctx.equal(got['res'], {'ok': None}, 'round trip')
    ctx.equal(got['prefix'], prefix, 'prefix of the manager')
    want = check_csv(ctx, got['csv'], node, prefix)
    ctx.equal(got['invalid'], [], 'invalid records')
    ctx.equal(got['names'], [prefix + '.xml'], 'names of the files created')
    ctx.equal(got['xml'], [prefix + '.xml'], 'files created')
    ctx.equal(got.get('extra', []), [], 'other files')
    ctx.equal(canon(got['node']), canon_of(node), 'model converted back')
    ctx.label(case['kind'] + ' to ' + case['out_kind'])
    nt(ctx, node, want)


def nt(ctx, node, want):
    ctx.label(node[0])
    ctx.nontrivial(any(len(r) > 3 for r in want.values()) or
                   len(want) < len(MODELS[node[0]][0](node)))


@st.composite
def command_case(draw):
    node = draw(models_)
    damage = None
    if draw(st.integers(0, 3)) == 0:
        damage = draw(damages(node, empty_ok=False))
    return {'node': node, 'prefix': draw(prefixes.filter(
        lambda p: p.strip() == p and not p.startswith('-'))),
        'kind': draw(st.sampled_from(['dir', 'zip'])),
        'out_kind': draw(st.sampled_from(['same', 'dir', 'zip'])),
        'limit': draw(st.sampled_from([None, '1', '3'])), 'damage': damage,
        'name': draw(ARCNAMES)}


JUNK = {'float': ['abc', '1.2.3', '--1'], 'int': ['x', '1.5', '1 2'],
        'positivefloat': ['-1', '-0.01', 'x'], 'positiveint': ['-1', 'x'],
        'probability': ['1.5', '-0.1', 'p'], 'longitude': ['180.5', '-181'],
        'latitude': ['90.01', '-100', 'N'], 'category': ['building', ''],
        'imt': ['SA', 'PGX', 'pga'], 'not_empty': [''],
        'namelist': ['1a', '', 'a-b'], 'boolean': ['maybe', 'True', '2'],
        'agg2': ['per_area', 'x'], 'agg3': ['x', 'per area'],
        'discrete': ['continuous', ''], 'continuous': ['discrete', '']}
KIND = {
    'CostType': '- agg3 - agg3 -',
    'Exposure': 'not_empty category - - agg2 - boolean boolean',
    'Location': 'positiveint longitude latitude',
    'Asset': 'positiveint - not_empty positivefloat positivefloat',
    'Cost': '- - positivefloat positivefloat positivefloat positivefloat',
    'Occupancy': '- - positivefloat',
    'DiscreteVulnerabilitySet': '- category - imt',
    'DiscreteVulnerability': '- - -',
    'DiscreteVulnerabilityData': '- - float float float',
    'FragilityDiscrete': 'discrete - namelist',
    'FFLimitStateDiscrete': '-',
    'FFSetDiscrete': 'int not_empty positivefloat imt -',
    'FFDataDiscrete': '- int float probability',
    'FragilityContinuous': 'continuous - namelist',
    'FFLimitStateContinuous': '-',
    'FFSetContinuous': 'int not_empty positivefloat - - - float float',
    'FFDataContinuous': '- int - float',
    'GmfCollection': '- -', 'GmfSet': 'int float', 'Gmf': 'int imt -',
    'GmfData': 'int - - float float float'}


@st.composite
def damages(draw, node, empty_ok=True):
    """[table, row, column, text] of a cell made invalid"""
    t = MODELS[node[0]][0](node)
    cells = [(name, i, j) for name, rows in t.items()
             for i in range(len(rows))
             for j, k in enumerate(KIND[name].split()) if k != '-']
    if not cells:
        return None
    name, i, j = draw(st.sampled_from(cells))
    return [name, i, j, draw(st.sampled_from(JUNK[KIND[name].split()[j]]))]


@C06.target(command_case(), 250)
def command_line(ctx, case):
    """the command line program converts a file to an archive and back, and
    refuses invalid records saying where they are"""
    node, prefix = case['node'], case['prefix']
    args = {k: case[k] for k in ('prefix', 'kind', 'out_kind', 'limit',
                                 'damage', 'name')}
    got = ctx.call('csv.command', nrml=nrml(node), **args)
    ctx.equal(got['res'], {'ok': None}, 'conversion')
    ctx.expect(got['bare'], 'no error without the name of an archive')
    ctx.equal(got['made'], False, 'something created without a name')
    ctx.equal(got['first']['exit'], None, 'end of the first conversion')
    ctx.expect('Created' in got['first']['out'], 'output: %s', got['first'])
    if case['damage']:
        ctx.label('invalid')
        table, row, col, text = case['damage']
        where = '%s__%s.csv[%s]: %d,%d: ' % (
            prefix, table, FIELDS[table].split()[col], row, col)
        ctx.expect(where in got['second']['out'], 'the message does not say '
                   '%s: %s', where, got['second']['out'])
        ctx.equal(got['second']['exit'], 'Found 1 invalid records', 'end')
        ctx.equal(got['xml'], [], 'files converted from invalid records')
        return
    want = check_csv(ctx, got['csv'], node, prefix)
    ctx.equal(got['second']['exit'], None, 'end of the second conversion')
    ctx.equal(canon(got['node']), canon_of(node), 'model converted back')
    ctx.label(case['kind'] + ' to ' + case['out_kind'])
    nt(ctx, node, want)


# ------------------------------------------------------------- A01
A01 = Prop('A01', '''histories of 1-25 operations (writing whole or in pieces,
reading whole, by line or two at a time, leaving files open, closing,
reopening the archive) over up to six names, on the three kinds of archive;
non-trivial when a file is rewritten or the archive is reopened, and
something is read afterwards''')
NAMES = ['a', 'b.csv', 'p__Location.csv', 'p__Asset.csv', 'q x.xml',
         'ap__Location.csv', 'P__Asset.csv', 'p__', 'csv', '[x]*.csv',
         '.b', '.p__Cost.csv', '~a', '#a#', 'b.csv~', '-']
starts = st.one_of(
    st.sampled_from(['', 'p', 'p__', 'z', 'q', 'a', 'b.', 'csv', '[', '*', '.']),
    st.tuples(st.sampled_from(NAMES), st.integers(0, 5), st.integers(1, 8))
    .map(lambda t: t[0][t[1]:t[1] + t[2]]))
chunk = st.one_of(st.text('ab,"\n', max_size=6),
                  st.sampled_from(['1,2\r\n', 'é\n', 'x' * 3000, '\n\n']))
chunks = st.lists(chunk, max_size=4)


@st.composite
def history(draw):
    kind = draw(st.sampled_from(['mem', 'dir', 'zip']))
    pool = draw(st.lists(st.sampled_from(NAMES), min_size=3, max_size=6,
                         unique=True))
    ops = []
    names = {}
    opened = {}
    for _ in range(draw(st.integers(1, 25))):
        here = [n for n in names if n not in opened] or ['nothing']
        free = [n for n in pool if n not in opened]
        what = draw(st.sampled_from(
            ['write', 'write', 'read', 'read', 'open', 'more', 'closeone',
             'closeall', 'lines', 'peek', 'two', 'in', 'names', 'reopen',
             'missing', 'bits']))
        if what in ('more', 'closeone') and not opened:
            what = 'read'
        if what in ('write', 'open') and not free:
            what = 'closeall'
        name = draw(st.sampled_from(here))
        if what in ('write', 'open'):
            name = draw(st.sampled_from(free))
            ops.append([what, name, draw(st.sampled_from(['w', 'w+'])),
                        draw(chunks)])
            if what == 'open':
                opened[name] = 1
            names[name] = 1
        elif what == 'more':
            ops.append([what, draw(st.sampled_from(sorted(opened))),
                        draw(chunk)])
        elif what == 'closeone':
            n = draw(st.sampled_from(sorted(opened)))
            ops.append([what, n])
            del opened[n]
        elif what == 'closeall':
            ops.append([what])
            opened = {}
        elif what == 'missing':
            ops.append(['read', draw(st.sampled_from(
                [n for n in NAMES + ['zz', 'p_'] if n not in names]))])
        elif what == 'in':
            ops.append([what, draw(st.sampled_from(
                [n for n in NAMES + ['zz'] if n not in opened] + ['zz']))])
        elif what == 'names':
            if not opened:
                ops.append([what] + draw(st.lists(starts, max_size=1)))
        elif what == 'reopen':
            if kind == 'zip' and not names:
                continue    # Jython cannot read an empty zip file
            ops.append([what, draw(st.sampled_from(
                ['a', 'r', 'r+'] if kind == 'dir' else ['a']))])
            opened = {}
        elif what == 'bits':
            ops.append([what, name, draw(st.lists(st.one_of(
                st.integers(0, 3), st.sampled_from([0, 7, 5000, 'line'])),
                max_size=6))])
        else:
            ops.append([what, name])
    if kind == 'zip' and not names:
        kind = 'mem'
    return {'kind': kind, 'ops': ops}


def lines(text):
    return text.split('\n')[:-1]


def in_bits(text, sizes):
    """What is read from a text by sizes and lines"""
    out = []
    for n in sizes:
        if n == 'line':
            n = len((split_lines(text) or [''])[0])
        out.append(text[:n])
        text = text[n:]
    return out + [text]


def split_lines(t):
    out = t.split('\n')
    return [x + '\n' for x in out[:-1]] + ([out[-1]] if out[-1] else [])


@A01.target(history(), 1500)
def archive_histories(ctx, case):
    """what is written in a file of an archive is what is read from it, by
    independent readers; closing the archive stores what was left open; a
    missing file raises NotInArchive"""
    got, final = ctx.call('csv.history', **case)
    ctx.label(case['kind'])
    files = {}
    pending = {}
    nt = changed = False
    for op, g in zip(case['ops'], got):
        what = op[0]
        want = {'ok': None}
        if what == 'write':
            changed |= op[1] in files
            files[op[1]] = ''.join(op[3])
        elif what == 'open':
            changed |= op[1] in files
            pending[op[1]] = ''.join(op[3])
        elif what == 'more':
            pending[op[1]] += op[2]
        elif what == 'closeone':
            files[op[1]] = pending.pop(op[1])
        elif what in ('closeall', 'reopen'):
            files.update(pending)
            pending = {}
            if what == 'reopen':
                changed = True
                want = {'ok': {'mem': 'MemArchive', 'dir': 'DirArchive',
                               'zip': 'ZipArchive'}[case['kind']]}
        elif what == 'in':
            want = {'ok': op[1] in files}
        elif what == 'names':
            p = op[1] if len(op) > 1 else ''
            want = {'ok': sorted(n for n in files if n.startswith(p))}
        else:
            name = op[1]
            if name not in files:
                ctx.expect('exc' in g and g['exc'] == 'NotInArchive',
                           '%s of a missing file: %s', what, g)
                continue
            nt |= changed
            text = files[name]
            rows = split_lines(text)
            first = rows[0] if rows else ''
            if what == 'bits' and not text.isascii():
                # a letter may be cut in two
                ctx.equal(''.join(g['ok']), text, 'pieces')
                continue
            want = {'ok': {'read': text, 'lines': rows, 'peek': first,
                           'bits': what == 'bits' and in_bits(text, op[2]),
                           'two': [first, text, text[len(first):]]}[what]}
        ctx.equal(g, want, '%s on a %s archive' % (op, case['kind']))
    files.update(pending)
    ctx.equal(final, {'ok': files}, 'contents at the end')
    ctx.nontrivial(nt)


# ------------------------------------------------------------- A02
A02 = Prop('A02', '''archives with the csv files of one or two models, with
zero to six cells made invalid; the errors are searched one to three times
with different limits, and the archive is then converted if nothing was
damaged; non-trivial with at least two invalid cells, or a conversion after a
search''')


@st.composite
def invalid_case(draw):
    nodes = draw(st.lists(models_utf8, min_size=1, max_size=2))
    prefs = ['p1', 'a_b']
    damage = []
    for k, node in enumerate(nodes):
        for _ in range(draw(st.sampled_from([0, 0, 1, 2, 3, 4]))):
            d = draw(damages(node))
            if d and not any(x[:4] == [k] + d[:3] for x in damage):
                damage.append([k] + d)
    copies = 0
    if draw(st.integers(0, 15)) == 0 and damage:
        # a row with an invalid cell, many times
        copies = draw(st.integers(60, 300))
    return {'nodes': nodes, 'prefixes': prefs[:len(nodes)], 'damage': damage,
            'copies': copies,
            'kind': draw(st.sampled_from(['mem', 'dir', 'zip'])),
            'limits': draw(st.lists(st.one_of(
                st.just([]), st.just([None]),
                st.integers(0, 4).map(lambda i: [i])), min_size=1,
                max_size=3))}


@A02.target(invalid_case(), 700)
def searching_invalid_records(ctx, case):
    """the search finds exactly the records with invalid cells, with file,
    row, fields and columns, up to the limit, as many times as asked, and
    leaves the archive ready to be converted"""
    files = []
    want = []
    bad = {(k, t, i, j): text for k, t, i, j, text in case['damage']}
    for k, (node, prefix) in enumerate(zip(case['nodes'], case['prefixes'])):
        t = MODELS[node[0]][0](node)
        for name in sorted(t, key=ORDER.index):
            rows = [list(r) for r in t[name]]
            if not rows:
                continue
            fname = '%s__%s.csv' % (prefix, name)
            cols = FIELDS[name].split()
            if case['copies'] and case['damage'][0][:2] == [k, name]:
                i = case['damage'][0][2]
                for n in range(case['copies']):
                    for d in case['damage']:
                        if d[:3] == [k, name, i]:
                            bad[k, name, len(rows), d[3]] = d[4]
                    rows.append(list(rows[i]))
            for i, r in enumerate(rows):
                js = [j for j in range(len(r)) if (k, name, i, j) in bad]
                for j in js:
                    r[j] = bad[k, name, i, j]
                if js:
                    want.append([fname, i, [cols[j] for j in js], js])
            files.append([fname, to_csv([cols] + rows)])
    convert = not case['damage']
    got = ctx.call('csv.find_invalid', kind=case['kind'], files=files,
                   limits=case['limits'], convert=convert)
    ctx.expect('ok' in got, 'search failed: %s', got)
    got = got['ok']
    # the order of the groups of files is not specified
    for lim, found in zip(case['limits'], got['found']):
        n = lim[0] if lim and lim[0] is not None else None
        ctx.equal(len(found), len(want) if n is None else min(n, len(want)),
                  'number of errors with limit %s' % n)
        for f in found:
            ctx.expect(f[:3] in [w[:3] for w in want], 'not an error: %s', f)
        for p in case['prefixes']:
            mine = [f[:3] for f in found if f[0].startswith(p + '__')]
            rows_in_order(ctx, mine)
            if n is None:
                ctx.equal(by_table(mine), by_table(
                    [w[:3] for w in want if w[0].startswith(p + '__')]),
                    'errors of ' + p)
        for f in found:
            js = [w[3] for w in want if w[:3] == f[:3]][0]
            for name, j, line in zip(f[2], js, f[3].split('\n')):
                head = '%s[%s]: %d,%d: ' % (f[0], name, f[1], j)
                ctx.expect(line.startswith(head) and len(line) > len(head),
                           'message %r should start with %r', line, head)
    if convert:
        ctx.label('converted')
        ctx.equal(sorted(n.split('/')[-1] for n in got['names']),
                  sorted(p + '.xml' for p in case['prefixes']), 'files')
        ctx.equal({p: canon(n) for p, n in got['nodes'].items()},
                  {p: canon_of(n) for p, n in zip(case['prefixes'],
                                                  case['nodes'])},
                  'models converted after the search')
        ctx.equal(got['csv'], sorted(files), 'csv files after the search')
    ctx.nontrivial(len(want) > 1 or convert)


def by_table(errs):
    return sorted(errs, key=lambda e: (e[0], e[1]))


def rows_in_order(ctx, errs):
    seen = []
    for e in errs:
        if not seen or seen[-1] != e[0]:
            ctx.expect(e[0] not in seen, 'files interleaved: %s', errs)
            seen.append(e[0])
    for name in seen:
        rows = [e[1] for e in errs if e[0] == name]
        ctx.expect(rows == sorted(set(rows)), 'rows out of order: %s', errs)


# ------------------------------------------------------------- A03
A03 = Prop('A03', '''archives with the csv files of zero to three models and
files that are none of them, possibly with a damaged header; non-trivial with
several models, a damaged header or foreign files''')
FOREIGN = ['README', 'x.csv', 'p__nothing.csv', 'p__Location.txt', 'a__b.txt',
           'q__Unknown.csv', '__.csv', 'z__Node.csv', 'z__Record.csv',
           'z__valid.csv', 'z__Field.csv', 'p__Location.csv~',
           'q__Exposure.csv.bak', 'q__GmfSet.csv2', '.#z__Asset.csvx',
           'p__Location.CSV', 'p__Location', 'q__Gmf.csv.zip']


@st.composite
def groups_case(draw):
    nodes = draw(st.lists(models_, max_size=3))
    prefs = draw(st.lists(st.one_of(prefixes, starts, st.sampled_from(
        ['model', 'Model', 'modelx', 'p', 'P'])), min_size=len(nodes),
                          max_size=len(nodes), unique=True))
    foreign = draw(st.lists(st.sampled_from(FOREIGN), max_size=3,
                            unique=True))
    header = None
    if nodes and draw(st.integers(0, 2)) == 0:
        header = [draw(st.integers(0, 9)), draw(st.sampled_from(
            ['missing', 'swapped', 'extra', 'case', 'short', 'space']))]
    return {'nodes': nodes, 'prefixes': prefs, 'foreign': foreign,
            'header': header, 'kind': draw(st.sampled_from(
                ['mem', 'dir', 'zip'])),
            'how': draw(st.sampled_from(['nrml', 'nrml', 'node', 'tables']))}


@A03.target(groups_case(), 700)
def groups_of_files(ctx, case):
    """each group of csv files with a common prefix is converted to the file
    of that name, whatever else is there; where one group is needed, none
    raises NotInArchive and several MultipleManagerError; a header that is not
    the fields of the record raises InvalidFile naming the file"""
    files = [[n, 'x,y\n1,2\n'] for n in case['foreign']]
    for node, prefix in zip(case['nodes'], case['prefixes']):
        files += files_of(node, prefix)
    damaged = None
    if case['header']:
        mine = [f for f in files if f[0] not in case['foreign']]
        damaged = f = mine[case['header'][0] % len(mine)]
        head, rest = f[1].split('\r\n', 1)
        cols = head.split(',')
        new = {'missing': None, 'swapped': cols[1:] + cols[:1],
               'extra': cols + ['x'], 'case': [c.upper() for c in cols],
               'short': cols[:-1],
               'space': [' ' + cols[0]] + cols[1:]}[case['header'][1]]
        if new is None:
            first = next(csv.reader(io.StringIO(rest)))
            f[1] = rest
        else:
            first = new
            f[1] = to_csv([new]) + rest
        if first == cols:
            damaged = None
    prefix = case['prefixes'][0] if case['prefixes'] else 'p'
    # Jython cannot read an empty zip file
    got = ctx.call('csv.groups', kind=case['kind'] if files else 'dir', files=files,
                   prefix=prefix, how=case['how'])
    res = got['res']
    if case['how'] != 'nrml' and len(case['nodes']) != 1:
        err = 'MultipleManagerError' if case['nodes'] else 'NotInArchive'
        ctx.label(err)
        ctx.expect('exc' in res and res['exc'] == err,
                   'expected %s, got %s', err, res)
        ctx.nontrivial(bool(case['nodes'] or case['foreign']))
        return
    if damaged:
        ctx.label('header ' + case['header'][1])
        ctx.expect('exc' in res and res['exc'] == 'InvalidFile' and
                   damaged[0] in res['msg'],
                   'expected InvalidFile about %s, got %s', damaged[0], res)
        ctx.nontrivial(True)
        return
    ctx.equal(res, {'ok': None}, 'conversion')
    if case['how'] == 'nrml':
        ctx.equal(sorted(got['names']),
                  sorted(p + '.xml' for p in case['prefixes']), 'files')
        want = {p: canon_of(n) for p, n in zip(case['prefixes'],
                                               case['nodes'])}
        for f, t in files:
            if f.endswith('.xml'):
                got['nodes'].pop(f[:-4], None)
        ctx.equal({p: canon(n) for p, n in got['nodes'].items()}, want,
                  'models')
    elif case['how'] == 'node':
        ctx.equal(canon(got['node']), canon_of(case['nodes'][0]), 'model')
    else:
        want = MODELS[case['nodes'][0][0]][0](case['nodes'][0])
        ctx.equal({k: spaced(v) for k, v in got['tables'].items()},
                  {k: spaced(v) for k, v in want.items()}, 'tables')
    ctx.label('%d groups' % len(case['nodes']))
    ctx.nontrivial(len(case['nodes']) > 1 or
                   bool(case['nodes'] and case['foreign']))


@A03.target(st.fixed_dictionaries({
    'node': models_utf8, 'prefix': prefixes, 'has_header': st.booleans(),
    'kind': st.sampled_from(['mem', 'dir', 'zip']),
    'cut': st.one_of(st.none(), st.integers(0, 12)),
    'shuffle': st.lists(st.integers(0, 5), min_size=1, max_size=5)}), 400)
def reading_and_writing_records(ctx, case):
    """records written through a manager are the rows of the file of their
    type, in order, after the header if there is one, and are read back;
    a file written again is replaced"""
    t = MODELS[case['node'][0]][0](case['node'])
    recs = [[n, r] for n, rows in t.items() for r in rows]
    keys = case['shuffle']
    recs = [recs[i] for i in sorted(
        range(len(recs)), key=lambda i: (keys[i % len(keys)], i))]
    cut = case['cut']
    # in a zip file nothing can be replaced
    groups = [recs] if cut is None or case['kind'] == 'zip' else [
        recs[:cut], recs[cut:]]
    got = ctx.call('csv.writerows', kind=case['kind'], prefix=case['prefix'],
                   has_header=case['has_header'], groups=groups)
    want = {}
    for recs in groups:
        new = {}
        for n, r in recs:
            f = '%s__%s.csv' % (case['prefix'], n)
            new.setdefault(f, [FIELDS[n].split()] if case['has_header']
                           else []).append(r)
        if set(new) & set(want):
            ctx.label('file written twice')
        want.update(new)
    ctx.equal(got, {'ok': want}, 'files written')
    files = [[f, to_csv(rows)] for f, rows in want.items()]
    read = ctx.call('csv.readtables', kind=case['kind'], files=files,
                    prefix=case['prefix'], has_header=case['has_header'])
    n = 1 if case['has_header'] else 0
    ctx.equal(read, [{'ok': rows[n:]} for rows in want.values()],
              'tables read')
    ctx.nontrivial(len(want) > 1 and len(set(keys)) > 1)


# ------------------------------------------------------------- A04
A04 = Prop('A04', '''the CSV files of a model, read two to six times through
the same manager, as tables, as a model, as a file, one table at a time, with
searches of invalid records in between; possibly with a wrong or missing
header. Non-trivial: something is read twice''')


@st.composite
def again_case(draw):
    node = draw(models_)
    files = files_of(node, 'p')
    names = [f[0].split('__')[1][:-4] for f in files]
    header = draw(st.sampled_from([True, True, True, False]))
    bad = None
    if header and draw(st.integers(0, 2)) == 0:
        bad = [draw(st.integers(0, len(files) - 1)),
               draw(st.sampled_from(['empty', 'missing', 'other', 'repeat']))]
    one = st.one_of(
        st.tuples(st.sampled_from(['table', 'read', 'create']),
                  st.sampled_from(names)).map(list),
        # a reading which is abandoned, or goes on during the next ones
        st.tuples(st.sampled_from(['begin', 'first']),
                  st.sampled_from(names), st.integers(1, 3)).map(list))
    # the conversion of whole archives expects headers
    step = st.one_of(one, st.sampled_from(
        [['tables'], ['node'], ['nrml'], ['invalid']])) if header else \
        st.one_of(one, st.sampled_from([['table', names[0]]]))
    some = draw(st.lists(step, min_size=1, max_size=3))
    steps = draw(st.lists(st.sampled_from(some), min_size=2, max_size=6))
    return {'node': node, 'kind': draw(st.sampled_from(['mem', 'dir', 'zip'])),
            'has_header': header, 'bad': bad, 'steps': steps,
            'together': draw(st.booleans()), 'spoil': draw(st.booleans())}


@A04.target(again_case(), 600)
def reading_again(ctx, case):
    """whatever is read through a manager is the same each time, and a wrong
    header is refused each time"""
    node = case['node']
    files = files_of(node, 'p')
    tables = MODELS[node[0]][0](node)
    broken = None
    if case['bad']:
        k, how = case['bad']
        head, rest = files[k][1].split('\r\n', 1)
        broken = files[k][0].split('__')[1][:-4]
        if how == 'empty':
            files[k][1] = ''
        elif how == 'repeat':
            files[k][1] += (rest.rstrip('\r\n').split('\r\n')[-1] +
                            '\r\n') * bool(rest)
        elif how == 'missing':
            files[k][1] = rest
            if head.split(',') == next(csv.reader(io.StringIO(rest))):
                return
        else:
            files[k][1] = head + ',x\r\n' + rest
    elif not case['has_header']:
        files = [[n, t.split('\r\n', 1)[1]] for n, t in files]
    steps = [s for s in case['steps'] if not (
        s[0] == 'create' and s[1] == broken)]
    got, after = ctx.call(
        'csv.reading_again', kind=case['kind'], files=files, prefix='p',
        has_header=case['has_header'], steps=steps,
        together=case['together'], spoil=case['spoil'])
    twice = False
    seen = []
    for step, g in zip(steps, got):
        what = step[0]
        twice |= step in seen
        seen.append(step)
        if broken and case['bad'][1] in ('empty', 'repeat') and (
                len(step) == 1 or step[1] == broken):
            ctx.label(case['bad'][1])
            if case['bad'][1] == 'empty' and len(step) > 1:
                ctx.equal(g, {'ok': []}, '%s after %s' % (step, seen[:-1]))
            elif step in seen[:-1]:    # whatever it was, the same again
                ctx.equal(g, got[seen.index(step)],
                          '%s again after %s' % (step, seen[:-1]))
            elif step[0] == 'tables' and 'ok' in g:
                ctx.equal(g['ok'][broken],
                          [] if case['bad'][1] == 'empty' else
                          tables[broken], 'table of the file')
            continue
        if broken and (len(step) == 1 or step[1] == broken):
            ctx.label('refused')
            ctx.expect('exc' in g and g['exc'] == 'InvalidFile' and
                       'p__%s.csv' % broken in g['msg'],
                       '%s after %s: expected InvalidFile, got %s', step,
                       seen[:-1], g)
            continue
        ctx.expect('ok' in g, '%s after %s: %s', step, seen[:-1], g)
        g = g['ok']
        ctx.label(what)
        if what == 'tables':
            g = {k: spaced(v) for k, v in g.items()}
            want = {k: spaced(v) for k, v in tables.items()}
        elif what in ('node', 'nrml'):
            g, want = canon(g), canon_of(node)
        elif what == 'invalid':
            want = 0
        elif what == 'create':
            g, want = [g[0], spaced(g[1])], [step[1], spaced(tables[step[1]])]
        else:
            g, want = spaced(g), spaced(tables[step[1]])
            if len(step) > 2:
                want = want[:step[2]]
        ctx.equal(g, want, '%s after %s' % (step, seen[:-1]))
    ctx.equal(after, dict(files), 'files afterwards')
    ctx.nontrivial(twice)


CELL = st.text('ab 1,"\'é\n#;', max_size=5)


@st.composite
def text_case(draw):
    name = draw(st.sampled_from(ORDER))
    cols = FIELDS[name].split()
    rows = []
    for i in range(draw(st.integers(1, 5))):
        # different in each row: the keys are not repeated
        rows.append([draw(CELL) + str(i) for _ in cols])
    j = draw(st.integers(0, len(cols)))
    first = draw(st.sampled_from(
        ['any', 'header', 'beginning', 'part', 'capitals', 'spaces']))
    if first == 'header':
        rows[0] = list(cols)
    elif first == 'beginning':
        rows[0][0] = cols[0] + draw(st.sampled_from(['', '1', '-', ' ', '0']))
    elif first == 'part':
        rows[0][:j] = cols[:j]
    elif first == 'capitals':
        rows[0] = [c.upper() for c in cols]
    elif first == 'spaces':
        rows[0] = [' ' + c for c in cols]
    return {'name': name, 'rows': rows, 'first': first,
            'has_header': draw(st.booleans()),
            'kind': draw(st.sampled_from(['mem', 'dir', 'zip'])),
            'steps': draw(st.lists(st.sampled_from(
                ['table', 'read', 'create']), min_size=1, max_size=3))}


@A04.target(text_case(), 500)
def any_rows(ctx, case):
    """all the rows are read, whatever is in their cells: the first one is a
    header exactly if the manager expects one"""
    name, rows = case['name'], case['rows']
    text = to_csv([FIELDS[name].split()] * case['has_header'] + rows)
    steps = [[s, name] for s in case['steps']]
    got, after = ctx.call(
        'csv.reading_again', kind=case['kind'],
        files=[['p__%s.csv' % name, text]], prefix='p',
        has_header=case['has_header'], steps=steps, together=False)
    ctx.label(case['first'])
    ctx.nontrivial(case['first'] != 'any' and not case['has_header'])
    for step, g in zip(steps, got):
        want = {'ok': [name, rows] if step[0] == 'create' else rows}
        ctx.equal(g, want, '%s of %r' % (step[0], text))
    ctx.equal(after, {'p__%s.csv' % name: text}, 'files afterwards')
