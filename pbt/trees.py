"""Logic trees: generators, XML writer with line numbers, reference model

A tree is {'levels': [[bset, ...], ...], 'junk': n} with bset = {'id', 'type',
'filters': {..}, 'apply': [branch ids] or None, 'branches': [[id, weight text,
value text], ...]}"""
from decimal import Decimal
from xml.sax.saxutils import quoteattr, escape

from hypothesis import strategies as st

NS = 'http://openquake.org/xmlns/nrml/0.4'
TRTS = ['Active Shallow Crust', 'Stable Shallow Crust', 'Volcanic',
        'Subduction Interface', 'Subduction IntraSlab', 'Deep & Other',
        'Subduction', 'Shallow Crust']
STYPES = ['point', 'area', 'simpleFault', 'complexFault',
          'characteristicFault']
GSIMS = ['AkkarBommer2010', 'BooreAtkinson2008', 'Campbell2003SHARE',
         'ChiouYoungs2008', 'FaccioliEtAl2010', 'LinLee2008SInter',
         'SadighEtAl1997', 'ToroEtAl2002', 'ZhaoEtAl2006Asc']
UNC = ['bGRRelative', 'maxMagGRRelative', 'abGRAbsolute', 'maxMagGRAbsolute']

ident = st.builds(lambda a, b: a + b, st.sampled_from('abcxyzB'),
                  st.text('abz019_-', max_size=4))


@st.composite
def weights(draw, n, digits=5):
    """n texts of decimals which sum to one"""
    # the product of five weights has less than 28 digits
    den = 10 ** draw(st.one_of(st.integers(0 if n == 1 else 1, 3),
                               st.just(digits)))
    cuts = sorted(draw(st.lists(st.integers(0, den), min_size=n - 1,
                                max_size=n - 1)))
    parts = [b - a for a, b in zip([0] + cuts, cuts + [den])]
    out = []
    for p in parts:
        d = Decimal(p) / Decimal(den)
        t = '%.*f' % (len(str(den)) - 1, d)
        style = draw(st.integers(0, 5))
        if style == 0:
            t = t + '0' if '.' in t else t + '.0'
        elif style == 1 and t.startswith('0.'):
            t = t[1:]
        assert Decimal(t) == d
        out.append(t)
    return out


class Ids:
    """Distinct identifiers"""
    def __init__(self, draw):
        self.draw, self.seen = draw, set()

    def __call__(self):
        base = t = self.draw(ident)
        n = 1
        while t in self.seen:
            n += 1
            t = base + str(n)
        self.seen.add(t)
        return t


def num(lo, hi, den=100):
    """A plain decimal numeral"""
    def text(i):
        s = repr(i / den)
        return s[1:] if s.startswith('0.') and i % 3 == 0 else s
    return st.integers(int(lo * den), int(hi * den)).map(text)


def value(kind):
    if kind == 'bGRRelative':
        return st.one_of(num(-.2, .2), num(-.2, .2), num(-1.3, 1.3))
    if kind == 'maxMagGRRelative':
        return st.one_of(num(-.5, .8), num(-.5, .8), num(-4, 3))
    if kind == 'maxMagGRAbsolute':
        return num(6.5, 9)
    if kind == 'abGRAbsolute':
        return st.tuples(num(1, 6), num(.5, 1.4),
                         st.sampled_from([' ', '  ', '\n   '])).map(
            lambda t: t[0] + t[2] + t[1])
    raise KeyError(kind)


@st.composite
def source_files(draw, nmax=3):
    """{name: [[type, id, trt], ...]}, the source models"""
    ids = Ids(draw)
    out = {}
    for i in range(draw(st.integers(1, nmax))):
        name = draw(st.sampled_from(
            ['model%d.xml'] * 3 + ['dir%d/model0.xml', 'm/model%d.xml'])) % i
        out[name] = [
            [draw(st.sampled_from(STYPES)), ids(),
             draw(st.sampled_from(TRTS))]
            for _ in range(draw(st.integers(1, 4)))]
    return out


def available(files):
    srcs = [s for f in files.values() for s in f]
    return srcs


@st.composite
def smlt(draw, files=None, max_levels=4, max_paths=150, max_width=4,
         min_levels=1):
    """A source model logic tree on the given files"""
    if files is None:
        files = draw(source_files())
    ids = Ids(draw)
    bids = Ids(draw)
    srcs = available(files)
    depth = draw(st.integers(min_levels, max_levels))
    levels = []
    child = {}
    ends = []

    def branches(kind, width):
        n = draw(st.integers(1, width))
        if kind == 'sourceModel':
            vals = [draw(st.sampled_from(sorted(files))) for _ in range(n)]
        else:
            vals = [draw(value(kind)) for _ in range(n)]
        return [[bids(), w, v] for w, v in zip(draw(weights(n)), vals)]
    for d in range(depth):
        if d == 0:
            level = [{'id': ids(), 'type': 'sourceModel', 'filters': {},
                      'apply': None,
                      'branches': branches('sourceModel', max_width)}]
        else:
            sel = draw(st.integers(0, 2)) and len(ends) > 0
            if not sel:
                groups = [None]
            else:
                owner = [draw(st.integers(0, 3)) for _ in ends]
                groups = [[e for e, o in zip(ends, owner) if o == k]
                          for k in (1, 2, 3)]
                groups = [g for g in groups if g] or [ends[:1]]
                if draw(st.booleans()):
                    groups = [g[::-1] for g in groups]
            level = []
            for g in groups:
                kind = draw(st.sampled_from(UNC))
                absolute = kind.endswith('Absolute')
                filters = {}
                pick = draw(st.integers(0, 3))
                if absolute or pick == 1:
                    k = 1 if absolute else draw(st.integers(1, 3))
                    chosen = [draw(st.sampled_from(srcs))[1]
                              for _ in range(k)]
                    filters['applyToSources'] = ' '.join(
                        sorted(set(chosen)))
                elif pick == 2:
                    filters['applyToTectonicRegionType'] = draw(
                        st.sampled_from(srcs))[2]
                elif pick == 3:
                    filters['applyToSourceType'] = draw(
                        st.sampled_from(srcs))[0]
                level.append({'id': ids(), 'type': kind, 'filters': filters,
                              'apply': g, 'branches': branches(kind, 3)})
        trial = levels + [level]
        if len(paths({'levels': trial}, limit=max_paths + 1)) > max_paths:
            break
        levels.append(level)
        ends = [b[0] for bs in level for b in bs['branches']]
    if not levels:
        levels = [[{'id': 'bs', 'type': 'sourceModel', 'filters': {},
                    'apply': None,
                    'branches': [['b', '1', sorted(files)[0]]]}]]
    if draw(st.integers(0, 3)) == 0:
        confuse(draw, levels)
    return {'levels': levels, 'junk': draw(st.integers(0, 3)),
            'files': files}


def confuse(draw, levels):
    """Rename the branches of two levels so that different paths read the
    same when their identifiers are joined"""
    child, root = children({'levels': levels})
    pairs = [(bs, child[bs['branches'][0][0]]) for level in levels
             for bs in level if len(bs['branches']) > 1
             and bs['branches'][0][0] in child]
    pairs = [(up, low) for up, low in pairs if len(low['branches']) > 1
             and child.get(up['branches'][1][0]) is low]
    if not pairs:
        return
    up, low = draw(st.sampled_from(pairs))
    a, b, c = [draw(st.sampled_from(['a', 'b', 'b1', 'x-', 'aa'])) + i
               for i in 'LMN']
    sep = draw(st.sampled_from(['', '', '_', '-']))
    new = {up['branches'][0][0]: a, up['branches'][1][0]: a + sep + b,
           low['branches'][0][0]: b + sep + c, low['branches'][1][0]: c}
    for bs in [bs for level in levels for bs in level]:
        bs['apply'] = bs['apply'] and [new.get(e, e) for e in bs['apply']]
        for br in bs['branches']:
            br[0] = new.get(br[0], br[0])


def children(tree):
    """branch id -> the branchset below it, and the root"""
    child, ends, root = {}, [], None
    for level in tree['levels']:
        new = []
        for bs in level:
            if root is None:
                root = bs
            else:
                for e in (bs['apply'] or ends):
                    child[e] = bs
            new.extend(b[0] for b in bs['branches'])
        if new:
            ends = new
    return child, root


def paths(tree, limit=None):
    """The root-to-leaf paths, depth first in document order: lists of
    (branchset, branch)"""
    child, root = children(tree)
    out = []

    def go(bs, prefix):
        for b in bs['branches']:
            if limit is not None and len(out) >= limit:
                return
            p = prefix + [(bs, b)]
            if b[0] in child:
                go(child[b[0]], p)
            else:
                out.append(p)
    if root is not None:
        go(root, [])
    return out


def weight(path):
    w = Decimal(1)
    for _, b in path:
        w *= Decimal(b[1])
    return w


FILTERS = ['applyToTectonicRegionType', 'applyToSources',
           'applyToSourceType']


class Writer:
    """XML text with the line of every element"""
    def __init__(self, junk=0):
        self.lines = ['<?xml version="1.0" encoding="utf-8"?>']
        self.where = {}
        self.junk = junk
        self.n = 0

    def noise(self, pad):
        self.n += 1
        if self.junk and self.n % (5 - self.junk) == 0:
            self.lines.append(pad + '<!-- note %d: <b> & co -->' % self.n)
        if self.junk > 1 and self.n % 3 == 0:
            self.lines.append('')

    def start(self, depth, tag, attrib=(), key=None, text=None, close=False):
        pad = '  ' * depth
        self.noise(pad)
        self.lines.append('%s<%s%s%s>%s' % (
            pad, tag, ''.join(' %s=%s' % (k, quoteattr(v))
                              for k, v in attrib),
            '/' if close else '',
            '' if text is None else escape(text) + '</%s>' % tag))
        if key is not None:
            self.where[key] = sum(x.count('\n') for x in self.lines[:-1]
                                  ) + len(self.lines)

    def end(self, depth, tag):
        self.lines.append('  ' * depth + '</%s>' % tag)

    def text(self):
        return '\n'.join(self.lines) + '\n'


def to_xml(tree):
    """(XML text, {('tree',) | ('bset', id) | ('branch', i, id) | ('value',
    i, id): line})"""
    w = Writer(tree.get('junk', 0))
    w.start(0, 'nrml', [('xmlns', NS)])
    w.start(1, 'logicTree', [('logicTreeID', 'lt1')], key=('tree',))
    for i, level in enumerate(tree['levels']):
        w.start(2, 'logicTreeBranchingLevel',
                [('branchingLevelID', 'bl%d' % i)], key=('level', i))
        for bs in level:
            attrib = [('branchSetID', bs['id']),
                      ('uncertaintyType', bs['type'])]
            attrib += [(f, bs['filters'][f]) for f in FILTERS
                       if f in bs['filters']]
            if bs.get('apply'):
                attrib.append(('applyToBranches', ' '.join(bs['apply'])))
            w.start(3, 'logicTreeBranchSet', attrib, key=('bset', bs['id']))
            for j, (bid, weight_, val) in enumerate(bs['branches']):
                w.start(4, 'logicTreeBranch', [('branchID', bid)],
                        key=('branch', bs['id'], j))
                pad = ['', ' ', '\n        '][
                    (tree.get('junk', 0) * (j + 1)) % 3]
                w.start(5, 'uncertaintyModel', text=pad + val + pad,
                        key=('value', bs['id'], j))
                w.start(5, 'uncertaintyWeight', text=pad + weight_ + pad)
                w.end(4, 'logicTreeBranch')
            w.end(3, 'logicTreeBranchSet')
        w.end(2, 'logicTreeBranchingLevel')
    w.end(1, 'logicTree')
    w.end(0, 'nrml')
    return w.text(), w.where


def model_xml(sources):
    lines = ['<?xml version="1.0" encoding="utf-8"?>',
             '<nrml xmlns="%s" xmlns:gml="http://www.opengis.net/gml">' % NS,
             '  <sourceModel name="m">']
    for kind, id_, trt in sources:
        lines.append('    <%sSource id=%s name="n" tectonicRegion=%s>' % (
            kind, quoteattr(id_), quoteattr(trt)))
        lines.append('      <magScaleRel>WC1994</magScaleRel>')
        lines.append('    </%sSource>' % kind)
    lines += ['  </sourceModel>', '</nrml>', '']
    return '\n'.join(lines)
