"""Bugs planted without looking at the checks, thirteenth round"""
from plant import plant

plant('R01-cached-attribute', 'R01', 'record.py', [(
'''            return lambda rec: self.cast(rec[self.name])
        return self.cast(rec[self.name])
''', '''            return lambda rec: self.cast(rec[self.name])
        casted = rec.__dict__.setdefault('_casted', {})
        if self.name not in casted:
            casted[self.name] = self.cast(rec[self.name])
        return casted[self.name]
''')], 'a field read as an attribute, written and read again',
'the attribute keeps the old value', '''
from openquake.commonlib import record
class A(record.Record):
    pkey = record.Unique('x')
    x = record.Field(int)
a = A('1')
assert a.x == 1
a['x'] = '2'
assert a.x == 2, a.x
''')

plant('L05-joined', 'L05', 'logictree.py', [(
'''        branchset = self.root_branchset
        trt_to_gsim = {}
        branch_ids = list(reversed(branch_ids))
''', '''        branchset = self.root_branchset
        cache = self.__dict__.setdefault('_cache', {})
        key = ''.join(branch_ids)
        if key in cache:
            return dict(cache[key])
        trt_to_gsim = cache[key] = {}
        branch_ids = list(reversed(branch_ids))
''')], 'two paths whose identifiers are the same when joined',
'the second has the values of the first', '''
from openquake.commonlib import logictree as L
def bset(trt, ids):
    bs = L.BranchSet('gmpeModel', {'applyToTectonicRegionType': trt})
    bs.branches = [L.Branch(i, 1, i) for i in ids]
    return bs
lt = object.__new__(L.GMPELogicTree)
lt.root_branchset = bset('A', ['b', 'b1'])
two = bset('B', ['1c', 'c'])
for b in lt.root_branchset.branches:
    b.child_branchset = two
assert lt.make_trt_to_gsim(['b', '1c']) == {'A': 'b', 'B': '1c'}
assert lt.make_trt_to_gsim(['b1', 'c']) == {'A': 'b1', 'B': 'c'}
''')

plant('L02-cached-models', 'L02', 'logictree.py', [(
'''        try:
            fh = self._get_source_model(source_model)
''', '''        cache = SourceModelLogicTree.__dict__.get('_known', {})
        SourceModelLogicTree._known = cache
        if (self.basepath, source_model) in cache:
            for known, mine in zip(cache[self.basepath, source_model], (
                    self.source_ids, self.source_types,
                    self.tectonic_region_types)):
                mine.update(known)
            return
        old = [set(self.source_ids), set(self.source_types),
               set(self.tectonic_region_types)]
        try:
            fh = self._get_source_model(source_model)
'''), (
'''            while prev is not None:
                parent.remove(prev)
                prev = node.getprevious()
''', '''            while prev is not None:
                parent.remove(prev)
                prev = node.getprevious()
        cache[self.basepath, source_model] = [new - o for new, o in zip((
            self.source_ids, self.source_types,
            self.tectonic_region_types), old)]
''')], 'a source model in two trees of the same directory, whose sources are '
'partly those of a model before it', 'those sources are not known to the second tree', '''
import StringIO
from openquake.commonlib import logictree as L
NS = L.SourceModelLogicTree.NRML
L.SourceModelLogicTree.get_xmlschema = classmethod(lambda cls: None)
def model(*ids):
    return '<nrml xmlns="%s"><sourceModel>%s</sourceModel></nrml>' % (NS, ''.join(
        '<pointSource id="%s" tectonicRegion="Volcanic"/>' % i for i in ids))
files = {'a.xml': model('1', '2'), 'b.xml': model('2', '3')}
def ids(*names):
    lt = object.__new__(L.SourceModelLogicTree)
    lt.basepath = 'X'
    lt.source_ids, lt.source_types, lt.tectonic_region_types = set(), set(), set()
    lt._get_source_model = lambda n: StringIO.StringIO(files[n])
    for n in names:
        lt.collect_source_model_data(n)
    return lt.source_ids
assert ids('a.xml', 'b.xml') == set('123')
assert ids('b.xml') == set('23'), ids('b.xml')
''')

plant('A01-read-zero', 'A01', 'csvmanager.py', [(
'''    def read(self, n=-1):
        return self.fileobj.read(n)
''', '''    def read(self, n=-1):
        return self.fileobj.read(n or -1)
''')], 'reading zero characters', 'everything is read', '''
from openquake.commonlib import csvmanager as C
f = C.FileObject('x', 'abc')
assert f.read(1) == 'a'
assert f.read(0) == ''
''')

plant('A01-crlf-lines', 'A01', 'csvmanager.py', [(
'''        return self.fileobj.readline()
''', '''        return self.fileobj.readline().replace('\\r\\n', '\\n')
''')], 'a file with CRLF lines in memory read line by line',
'the lines end differently', '''
from openquake.commonlib import csvmanager as C
assert C.FileObject('x', 'abc\\n').readline() == 'abc\\n'
assert C.FileObject('x', 'abc\\r\\n').readline() == 'abc\\r\\n'
''')

plant('G02-falsy-kind', 'G02', 'general.py', [(
'''        elif ws.weight + w > max_weight or k != prev_kind:
''', '''        elif ws.weight + w > max_weight or (
                prev_kind and k != prev_kind):
''')], 'a kind that counts as false followed by another',
'items of the two kinds go together', '''
from openquake.commonlib import general as G
def blocks(items):
    return [list(b) for b in G.block_splitter(items, 9, kind=lambda i: i)]
assert blocks([1, 2]) == [[1], [2]]
assert blocks([0, 2]) == [[0], [2]], blocks([0, 2])
''')

plant('S01-type-case', 'S01', 'source.py', [(
'''        if trt not in source_stats_dict:
            source_stats_dict[trt] = SourceCollector(trt)
        source_stats_dict[trt].update(src)
''', '''        key = ' '.join(trt.split())
        if key not in source_stats_dict:
            source_stats_dict[key] = SourceCollector(trt)
        source_stats_dict[key].update(src)
''')], 'two types differing by white space', 'the model is refused', '''
from openquake.commonlib import source as S
class Src(object):
    class mfd(object):
        @staticmethod
        def get_min_max_mag():
            return 5., 6.
    def __init__(self, id_, trt):
        self.source_id, self.tectonic_region_type = id_, trt
def model(*trts):
    class Parser(object):
        def __init__(self, fname):
            pass
        def parse(self):
            return [Src(str(i), trt) for i, trt in enumerate(trts)]
    S.haz_parsers.SourceModelParser = Parser
    return [c.trt for c in S.parse_source_model('x', lambda s: s)]
assert model('A', 'B') == ['A', 'B']
assert model('A', 'A ') == ['A', 'A ']
''')


plant('L04-same-values', 'L04', 'logictree.py', [(
'''            if not branchset.uncertainty_type == 'sourceModel':
                branchsets_and_uncertainties.append((branchset, branch.value))
''', '''            if not branchset.uncertainty_type == 'sourceModel' and not any(
                    bs.uncertainty_type == branchset.uncertainty_type and
                    bs.filters == branchset.filters and val == branch.value
                    for bs, val in branchsets_and_uncertainties):
                branchsets_and_uncertainties.append((branchset, branch.value))
''')], 'two levels with the same type, filter and value of a relative '
'uncertainty', 'it is applied once', '''
from openquake.commonlib import logictree as L
def tree(*values):
    lt = object.__new__(L.SourceModelLogicTree)
    prev = None
    for i, v in enumerate(values):
        bs = L.BranchSet('bGRRelative', {})
        bs.branches = [L.Branch(str(i), 1, v)]
        bs.apply_uncertainty = lambda value, src: src.append(value)
        if prev is None:
            lt.root_branchset = bs
        else:
            prev.child_branchset = bs
        prev = bs.branches[0]
    out = []
    lt.make_apply_uncertainties([str(i) for i in range(len(values))])(out)
    return out
assert tree(.1, .2) == [.1, .2]
assert tree(.1, .1) == [.1, .1], tree(.1, .1)
''')

plant('P01-same-tasks', 'P01', 'parallel.py', [(
'''        self.results.append(res)
''', '''        if res not in self.results:
            self.results.append(res)
''')], 'tasks in process with equal results', 'they count once', '''
import os
os.environ['OQ_NO_DISTRIBUTE'] = '1'
from openquake.commonlib import parallel
parallel.check_mem_usage = lambda: None
def f(x):
    return x
add = lambda a, b: a + b
assert parallel.map_reduce(f, [(1,), (2,)], add, 0) == 3
assert parallel.map_reduce(f, [(1,), (1,)], add, 0) == 2
''')

plant('V01-stripped-range', 'V01', 'valid.py', [(
'''        f = float(value)
        if f != f:''', '''        f = round(float(value), 15)
        if f != f:''')], 'a probability with more than 15 decimals',
'it is rounded', '''
from openquake.commonlib import valid
assert valid.probability('0.25') == .25
assert valid.probability('1e-20') == 1e-20, valid.probability('1e-20')
''')

plant('C05-same-sets', 'C05', 'converter.py', [(
'''            nodes = [records.GmfData(*r).to_node() for r in rows]
''', '''            nodes = [records.GmfData(*r).to_node() for r in sorted(
                rows, key=lambda r: float(r['lon']))]
''')], 'places not sorted by longitude', 'they are in another order', '''
from openquake.commonlib import converter, record, records
def lons(*ls):
    ts = record.TableSet(converter.GmfCollection)
    ts.insert(records.GmfSet('0', ''))
    ts.insert(records.Gmf('0', 'PGA', ''))
    for l in ls:
        ts.insert(records.GmfData('0', 'PGA', '', l, '1', '1'))
    return [n['lon'] for n in ts.to_node()[0]]
assert lons('1', '2') == ['1', '2']
assert lons('2', '1') == ['2', '1'], lons('2', '1')
''')
