"""Configuration files: I01, I02"""
import os.path

from hypothesis import strategies as st

from pbt.core import Prop
from pbt.trees import smlt, to_xml, paths

# ---------------------------------------------------------------- I01
I01 = Prop('I01', '''configuration files of zero to four sections with up to
ten parameters, paths of files and sites, in nested directories, read from
another directory by a relative or absolute name. Non-trivial: a relative path
or sites, read from another directory''')

key = st.one_of(
    st.from_regex(r'[a-zA-Z][a-zA-Z_0-9]{0,8}', fullmatch=True),
    st.sampled_from(['a_file_b', 'file', 'profile', 'files_csv', 'the_files',
                     'sites_csv_x', 'xsites_csv', 'my_base_path'])).filter(
    lambda k: not k.lower().endswith('_file') and k.lower() not in (
        'sites_csv', 'sites', 'inputs', 'base_path'))
word = st.text('ab1.,:=/- _', min_size=1, max_size=10).map(str.strip).filter(
    bool)
val = st.one_of(
    word, st.sampled_from(['classical', '1 1 2 2 3 3', '0', '0.5', 'true',
                           '{"PGA": [0.1, 0.2]}', 'a=b', 'a: b', 'è', '']))
seg = st.sampled_from(['a', 'b', 'in puts', 'Data', '..', '.', '~',
                       '$HOME'])
fname = st.sampled_from(['exp.xml', 'model.xml', 'X.csv', 'a b.xml', 'v',
                         '~v.xml', '~root.xml', '$x.xml', 'è.xml', 'e.xml,v.xml'])
number = st.one_of(st.integers(-180, 180).map(str), st.integers(
    -1800, 1800).map(lambda i: repr(i / 10)), st.sampled_from(
        ['1e1', '-0.5', '.5', '+1', '12.3456789', '-12.34567890123456',
          '0.1234567890123', '179.99999999999997']))


@st.composite
def rel(draw, base):
    """A relative path which stays in the case's directory, or an absolute
    one"""
    segs = []
    depth = len([s for s in base.split('/') if s])
    for s in draw(st.lists(seg, max_size=3)):
        if s == '..':
            if depth <= 0:
                continue
            depth -= 1
        elif s != '.':
            depth += 1
        segs.append(s)
    path = '/'.join(segs + [draw(fname)])
    if draw(st.integers(0, 4)) == 0:
        return '@WORK@/' + path.replace('../', '')
    return path


def mixed(draw, k):
    return draw(st.sampled_from([k, k, k.upper(), k.title()]))


@st.composite
def configs(draw):
    base = draw(st.sampled_from(['', 'job', 'job/sub', 'the job']))
    keys = draw(st.lists(key, max_size=8, unique_by=str.lower))
    params = [['p', k, draw(val)] for k in keys]
    types = draw(st.lists(st.sampled_from(
        ['exposure', 'site_model', 'gsim_logic_tree', 'a',
         'structural_vulnerability', 'file', 'site_file_list',
         'file_file', 'profile', 'my_files', 'sites_csv', 'rupture_model']),
        max_size=4, unique=True))
    for t in types:
        params.append(['f', mixed(draw, t + '_file'), draw(rel(base))])
    sites = None
    if draw(st.booleans()):
        sites = {'path': draw(rel(base)), 'rows': draw(
            st.lists(st.tuples(number, number).map(list), min_size=1,
                     max_size=6)),
            'style': draw(st.sampled_from([',', ', ', 'q'])),
            'nl': draw(st.sampled_from(['\n', '\r\n'])),
            'end': draw(st.booleans())}
        if os.path.normpath(sites['path']) in ('job.ini', '.'):
            sites = None
        else:
            params.append(['s', mixed(draw, 'sites_csv'), sites['path']])
    params = draw(st.permutations(params))
    nsect = draw(st.integers(1, 4)) if params else draw(st.integers(0, 2))
    where = [draw(st.integers(0, nsect - 1)) for _ in params]
    return {'base': base, 'params': params, 'sites': sites, 'nsect': nsect,
            'where': where, 'cwd': draw(st.sampled_from(
                ['', 'job', 'elsewhere/x', base])),
            'absolute': draw(st.sampled_from([True, False, 'dots'])),
            'sep': draw(st.sampled_from([' = ', '=', ': ', '= ', ':'])),
            'junk': draw(st.integers(0, 2))}


def ini(case):
    out = []
    for i in range(case['nsect']):
        out.append('[section %d]' % i)
        if case['junk'] > 1:
            out.append('')
        for (kind, k, v), w in zip(case['params'], case['where']):
            if w == i:
                if case['junk']:
                    out.append('# key = value')
                out.append(k + case['sep'] + v)
    return '\n'.join(out) + '\n'


def sites_text(s):
    rows = []
    for x, y in s['rows']:
        rows.append('"%s","%s"' % (x, y) if s['style'] == 'q'
                    else x + s['style'] + y)
    return s['nl'].join(rows) + (s['nl'] if s['end'] else '')


def full(base, path):
    if path.startswith('@WORK@'):
        return os.path.normpath(path)
    return os.path.normpath('/'.join(['@WORK@', base, path]))


def norm(ctx, path):
    ctx.expect(path.startswith('@WORK@'), 'a path which is not absolute: %s',
               path)
    return os.path.normpath(path)


@I01.target(configs(), 1200)
def parsing(ctx, case):
    """The parameters, with the absolute paths of the files"""
    base = case['base']
    job = '/'.join(x for x in (base, 'job.ini') if x)
    files = {job: ini(case)}
    if case['sites']:
        files[full(base, case['sites']['path'])[7:]] = sites_text(
            case['sites'])
    # the directories of the relative paths exist
    for kind, k, v in case['params']:
        if kind == 'f':
            files.setdefault(full(base, v)[7:], 'some file')
            parts = [base] if base else []
            for s in ([] if v.startswith('@') else v.split('/')[:-1]):
                parts.append(s)
                files[os.path.normpath('/'.join(parts + ['.keep']))] = ''
    if case['sites'] and not case['sites']['path'].startswith('@'):
        parts = [base] if base else []
        for s in case['sites']['path'].split('/')[:-1]:
            parts.append(s)
            files[os.path.normpath('/'.join(parts + ['.keep']))] = ''
    if any(f != job and os.path.normpath(f) == job for f in files):
        return
    ctx.nontrivial(case['cwd'] != base and any(
        k in 'fs' and not v.startswith('@') for k, _, v in case['params']))
    for k, _, v in case['params']:
        ctx.label({'p': 'parameter', 'f': 'file', 's': 'sites'}[k])
    res = ctx.call('ini.parse', files=files, cwd=case['cwd'], name=job,
                   absolute=case['absolute'])
    ctx.expect('ok' in res, 'parse_config failed: %s', res)
    got, kind, ikind = res['ok']
    ctx.equal([kind, ikind], ['dict', 'dict'], 'types')
    want = {k.lower(): v.strip() for kind, k, v in case['params']
            if kind == 'p'}
    inputs = {k.lower()[:-5]: full(base, v) for kind, k, v in case['params']
              if kind == 'f'}
    ctx.equal(norm(ctx, got.pop('base_path')), full(base, ''), 'base_path')
    ctx.equal({k: norm(ctx, v) for k, v in got.pop('inputs').items()}, inputs,
              'inputs')
    sites = got.pop('sites', None)
    if case['sites']:
        ctx.expect(sites is not None, 'no sites')
        ctx.expect(sites.startswith('MULTIPOINT(') and sites.endswith(')'),
                   'sites: %s', sites)
        pts = [p.split() for p in sites[11:-1].split(',')]
        ctx.expect(all(len(p) == 2 for p in pts), 'sites: %s', sites)
        ctx.equal([[float(x) for x in p] for p in pts],
                  [[float(x) for x in p] for p in case['sites']['rows']],
                  'sites')
    else:
        ctx.equal(sites, None, 'sites')
    ctx.equal(got, want, 'parameters')


# ---------------------------------------------------------------- I02
I02 = Prop('I02', '''configurations with a source model logic tree of up to
four levels on one to four source models in nested directories. Non-trivial:
at least two models, one of them used twice or never''')

MODELS = ['source_model.xml', 'b.xml', 'models/a.xml', '../c.xml',
          'the model.xml', '@WORK@/abs.xml', 'a.xml', 'models/../a.xml']


@st.composite
def lt_cases(draw):
    names = draw(st.lists(st.sampled_from(MODELS), min_size=1, max_size=4,
                          unique=True))
    tree = draw(smlt(files={n: [['point', 's%d' % i, 'Volcanic']]
                            for i, n in enumerate(names)}, max_levels=3))
    for i in range(draw(st.sampled_from([0, 0, 0, 1, 2]))):
        # not for the calculators, but these models are there all the same
        bs = {'id': 'more%d' % i, 'type': 'sourceModel', 'filters': {},
              'apply': None, 'branches': [
                  ['more%d_%d' % (i, j), '1.0', n] for j, n in enumerate(
                      draw(st.lists(st.sampled_from(names), min_size=1,
                                    max_size=3)))]}
        level = draw(st.sampled_from(tree['levels'] + [[]]))
        if not level:
            tree['levels'].append(level)
        level.append(bs)
    return {'tree': tree, 'base': draw(st.sampled_from(['job', 'job/sub'])),
            'lt': draw(st.sampled_from(
                ['lt.xml', 'trees/lt.xml', '@WORK@/other/lt.xml'])),
            'cwd': draw(st.sampled_from(['', 'job', 'elsewhere'])),
            'absolute': draw(st.booleans()),
            'key': draw(st.sampled_from(['source_model_logic_tree_file'] * 3
                                        + ['gsim_logic_tree_file']))}


@I02.target(lt_cases(), 400)
def source_models(ctx, case):
    """The source models of a configuration are those of its logic tree"""
    base, tree = case['base'], case['tree']
    xml, _ = to_xml(tree)
    job = base + '/job.ini'
    files = {job: '[general]\n%s = %s\n' % (case['key'], case['lt']),
             full(base, case['lt'])[7:]: xml}
    used = [b[2] for level in tree['levels'] for bs in level
            if bs['type'] == 'sourceModel' for b in bs['branches']]
    ctx.nontrivial(len(tree['files']) > 1 and (
        len(set(used)) < len(used) or len(set(used)) < len(tree['files'])))
    res = ctx.call('ini.parse', files=files, cwd=case['cwd'], name=job,
                   absolute=case['absolute'])
    ctx.expect('ok' in res, 'parse_config failed: %s', res)
    inputs = res['ok'][0]['inputs']
    ctx.equal(norm(ctx, inputs[case['key'][:-5]]), full(base, case['lt']),
              'logic tree')
    if case['key'].startswith('gsim'):
        ctx.label('no source model logic tree')
        ctx.equal(set(inputs), {'gsim_logic_tree'}, 'inputs')
        return
    got = inputs.get('source')
    ctx.expect(isinstance(got, list), 'no source models: %s', inputs)
    # each once; the same file may be written in two ways
    ctx.equal(len(got), len(set(used)), 'number of source models')
    ctx.equal(sorted(norm(ctx, p) for p in got),
              sorted(full(base, p) for p in set(used)), 'source models')
