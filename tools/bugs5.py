"""Planted bugs, fourth round, second part"""
from plant import plant

SM = '''
import os, shutil, tempfile
from openquake.commonlib import logictree
NS = 'xmlns="http://openquake.org/xmlns/nrml/0.4" xmlns:gml="http://www.opengis.net/gml"'
'''
BR = '''
from decimal import Decimal
from openquake.commonlib import logictree
'''

plant('L01-ten-digits', 'L01', 'logictree.py', [(
'''            yield weight, flat_path[::-1]
''', '''            yield weight.quantize(Decimal('1e-10')), flat_path[::-1]
''')], 'a path whose weight has more than ten decimals',
'the weights of the paths are rounded, so they do not sum up to exactly one', BR + '''
def tree(*weights):
    top = prev = None
    for w in weights:
        bs = logictree.BranchSet('bGRRelative', {})
        bs.branches = [logictree.Branch('b', Decimal(w), 1)]
        if prev:
            prev.branches[0].child_branchset = bs
        top, prev = top or bs, bs
    return [w for w, _ in top.enumerate_paths()]
assert tree('0.5', '0.25') == [Decimal('0.125')]
assert tree('0.12345', '0.12345', '0.12345') == [Decimal('0.12345') ** 3]
''')

plant('L02-second-source', 'L02', 'logictree.py', [(
'''            for source_id in filters['applyToSources'].split():
                if not source_id in self.source_ids:
                    raise''', '''            for source_id in filters['applyToSources'].split()[:1]:
                if not source_id in self.source_ids:
                    raise''')],
'a filter naming several sources, the first of which exists and another not',
'only the first identifier of the filter is checked', BR + '''
class T(logictree.SourceModelLogicTree):
    def __init__(self):
        self.source_ids = set('12')
        self.filename = 'f'; self.basepath = 'b'
class N(object):
    sourceline = 3
t = T()
t.validate_filters(N, 'bGRRelative', {'applyToSources': '1 2'})
for ids in ('3', '1 3'):
    try:
        t.validate_filters(N, 'bGRRelative', {'applyToSources': ids})
    except logictree.ValidationError:
        pass
    else:
        raise AssertionError(ids)
''')

plant('L02-three-numbers', 'L02', 'logictree.py', [(
'''            if len(ab) == 2:
                a, b = ab
''', '''            if len(ab) >= 2:
                a, b = ab[:2]
''')], 'an absolute a-b uncertainty with three numbers',
'the value passes the validation (and then fails with an unrelated error)', BR + '''
class T(logictree.SourceModelLogicTree):
    def __init__(self):
        self.filename = 'f'; self.basepath = 'b'
class N(object):
    sourceline = 3
bs = logictree.BranchSet('abGRAbsolute', {})
T().validate_uncertainty_value(N, bs, '1 2')
for val in ('1', '1 x', '1 2 3'):
    try:
        T().validate_uncertainty_value(N, bs, val)
    except logictree.ValidationError:
        pass
    else:
        raise AssertionError(val)
''')

plant('L03-seed-zero', 'L03', 'logictree.py', [(
'''            rnd = random.Random(self.seed)
''', '''            rnd = random.Random(self.seed or None)
''')], 'the seed 0 (the default)',
'with seed zero each iteration gives another sample', BR + '''
class T(logictree.SourceModelLogicTree):
    def __init__(self, seed):
        self.seed = seed
        self.num_samples = 60
        self.root_branchset = bs = logictree.BranchSet('sourceModel', {})
        bs.branches = [logictree.Branch(c, Decimal('0.5'), c) for c in 'ab']
for seed in (1, 0):
    t = T(seed)
    assert [r.lt_path for r in t] == [r.lt_path for r in t], seed
''')

plant('L04-part-of-type', 'L04', 'logictree.py', [(
'''                if value != source.tectonic_region_type:
''', '''                if value not in source.tectonic_region_type:
''')], 'a tectonic region type whose name is part of another one',
'an uncertainty for one type changes the sources of the other', BR + '''
class S(object):
    def __init__(self, trt):
        self.tectonic_region_type = trt
bs = logictree.BranchSet('bGRRelative', {
    'applyToTectonicRegionType': 'Subduction'})
assert bs.filter_source(S('Subduction'))
assert not bs.filter_source(S('Volcanic'))
assert not bs.filter_source(S('Subduction Interface'))
''')

plant('L04-id-prefix', 'L04', 'logictree.py', [(
'''            if branch.branch_id == branch_id:
''', '''            if branch.branch_id.startswith(branch_id):
''')], 'a branch whose identifier begins with that of a later branch, as b12 before b1',
'the path follows another branch', BR + '''
bs = logictree.BranchSet('bGRRelative', {})
bs.branches = [logictree.Branch('b2', 1, 1), logictree.Branch('b12', 1, 1),
               logictree.Branch('b1', 1, 1)]
assert bs.get_branch_by_id('b2').branch_id == 'b2'
assert bs.get_branch_by_id('b1').branch_id == 'b1'
''')

plant('L05-shared-types', 'L05', 'logictree.py', [(
'''    #: Base GMPE class (all valid GMPEs must extend it).
''', '''    defined_tectonic_region_types = set()
    #: Base GMPE class (all valid GMPEs must extend it).
'''), (
'''        self.defined_tectonic_region_types = set()
''', '')], 'two GMPE logic trees parsed one after the other, with validation',
'the types defined by the first tree are refused in the second', BR + '''
class T(logictree.GMPELogicTree):
    def __init__(self):
        try:
            super(T, self).__init__(['Volcanic'], '<x/>', 'b', 'f')
        except Exception:   # the content does not matter here
            pass
        self.filename = 'f'; self.basepath = 'b'
class N(object):
    sourceline = 3
for i in range(2):
    T().validate_filters(N, 'gmpeModel',
                         {'applyToTectonicRegionType': 'Volcanic'})
''')

GS = '''
import os, tempfile
from openquake.commonlib import logictree
def lt(trts, *levels):
    xml = '<nrml xmlns="http://openquake.org/xmlns/nrml/0.4"><logicTree logicTreeID="lt1">'
    for i, (trt, branches) in enumerate(levels):
        xml += ('<logicTreeBranchingLevel branchingLevelID="bl%d">'
            '<logicTreeBranchSet uncertaintyType="gmpeModel" branchSetID="bs%d"'
            ' applyToTectonicRegionType="%s">' % (i, i, trt))
        for bid, gsim, w in branches:
            xml += ('<logicTreeBranch branchID="%s"><uncertaintyModel>%s'
                '</uncertaintyModel><uncertaintyWeight>%s</uncertaintyWeight>'
                '</logicTreeBranch>' % (bid, gsim, w))
        xml += '</logicTreeBranchSet></logicTreeBranchingLevel>'
    fd, name = tempfile.mkstemp(suffix='.xml')
    os.close(fd)
    try:
        with open(name, 'w') as f:
            f.write(xml + '</logicTree></nrml>')
        return logictree.GsimLogicTree(
            name, 'applyToTectonicRegionType', trts)
    finally:
        os.remove(name)
'''
plant('L06-other-duplicates', 'L06', 'logictree.py', [(
'''                if fkey:
                    fkeys.append(fkey)
                if fkey in self.filter_keys:
                    weights = []
''', '''                if fkey in self.filter_keys:
                    fkeys.append(fkey)
                    weights = []
''')], 'a tectonic region type which is repeated in the file but not requested',
'the repetition is accepted', GS + '''
one = ('Volcanic', [('b1', 'A', '1.0')])
two = ('Shield', [('b2', 'A', '1.0')])
three = ('Shield', [('b3', 'B', '1.0')])
assert len(list(lt(['Volcanic'], one, two))) == 1
for trts in (['Shield'], ['Volcanic']):
    try:
        lt(trts, one, two, three)
    except logictree.InvalidLogicTree:
        pass
    else:
        raise AssertionError(trts)
''')

plant('L06-weights-of-values', 'L06', 'logictree.py', [(
'''                        weights.append(weight)
                        branch_id = branch['branchID']
''', '''                        if weight > 0:
                            weights.append(weight)
                        branch_id = branch['branchID']
''')], 'a branch with a negative weight besides others that sum up to one',
'weights that do not sum up to one are accepted when one is negative', GS + '''
def accepted(*ws):
    try:
        lt(['Volcanic'], ('Volcanic', [
            ('b%d' % i, 'G%d' % i, w) for i, w in enumerate(ws)]))
    except AssertionError:
        return False
    return True
assert accepted('0.5', '0.5') and not accepted('0.5', '0.6')
assert not accepted('1.0', '-0.5')
''')

SRC = '''
from openquake.commonlib import source
class M(object):
    def __init__(self, lo, hi):
        self.mags = lo, hi
    def get_min_max_mag(self):
        return self.mags
class S(object):
    tectonic_region_type = 'V'
    def __init__(self, lo, hi):
        self.mfd = M(lo, hi)
'''
plant('S01-zero-magnitude', 'S01', 'source.py', [(
'''        if prev_min_mag is None or min_mag < prev_min_mag:
''', '''        if not prev_min_mag or min_mag < prev_min_mag:
''')], 'a source with a minimum magnitude of zero followed by another one',
'the minimum of zero is replaced by the next one', SRC + '''
sc = source.SourceCollector('V', [S(5, 6), S(6, 7)])
assert (sc.min_mag, sc.max_mag) == (5, 7)
sc = source.SourceCollector('V', [S(0., 6), S(5, 7)])
assert (sc.min_mag, sc.max_mag) == (0, 7), sc.min_mag
''')

plant('S02-zero-bins', 'S02', 'source.py', [(
'''                           for x in area_mfd.occurrence_rates]
''', '''                           for x in area_mfd.occurrence_rates if x]
''')], 'an area source with a magnitude of zero rate before others',
'the rates after the zero one are moved to smaller magnitudes', '''
from openquake.commonlib import source
from openquake.hazardlib import mfd
class Mesh(object):
    lons = [1., 2.]
    lats = [3., 4.]
    def __len__(self):
        return 2
class Poly(object):
    def discretize(self, step):
        return Mesh()
class Area(object):
    polygon = Poly()
    def __getattr__(self, name):
        return None
def rates(*rs):
    a = Area()
    a.mfd = mfd.EvenlyDiscretizedMFD(min_mag=5., bin_width=1.,
                                     occurrence_rates=list(rs))
    got = []
    class PS(object):
        def __init__(self, **kw):
            got.append(list(kw['mfd'].occurrence_rates))
    ps = source.source.PointSource
    loc = source.geo.Point
    source.source.PointSource = PS
    source.geo.Point = lambda *a: a
    try:
        list(source.area_to_point_sources(a, 10))
    finally:
        source.source.PointSource = ps
        source.geo.Point = loc
    return got
assert rates(2, 4) == [[1, 2]] * 2
assert rates(2, 0, 4) == [[1, 0, 2]] * 2, rates(2, 0, 4)
''')

plant('S03-filter-twice', 'S03', 'source.py', [(
'''            if sites is not None:
                for ss in split_source(src, discr):
''', '''            if sites is not None and src_filter(src) is not None:
                for ss in split_source(src, discr):
''')], 'a filter with a state, or an expensive one: it is called twice for each source',
'each source is filtered twice', '''
from openquake.commonlib import source
calls = []
class S(object):
    pass
sc = source.SourceCollector('V')
sc.sources = [S(), S()]
def filt(src):
    calls.append(src)
    return 'sites'
list(sc._filter_and_split_sources(filt, 1))
assert calls == sc.sources, len(calls)
''')

plant('S03-distinct-ids', 'S03', 'source.py', [(
'''        num_sources = len(self.sources)
        assert num_sources, 'No sources for TRT=%s!' % self.trt
''', '''        num_sources = len(set(src.source_id for src in self.sources))
        assert num_sources, 'No sources for TRT=%s!' % self.trt
''')], 'a collector with several sources of the same identifier (as after splitting and merging)',
'the limit of the blocks depends on the number of different identifiers', '''
from openquake.commonlib import source
class S(object):
    def __init__(self, i):
        self.source_id = i
    def count_ruptures(self):
        return 1
def sizes(ids):
    sc = source.SourceCollector('V')
    sc.sources = [S(i) for i in ids]
    return [len(b) for b in sc.gen_blocks(lambda s: 1, 101, 1)]
assert sizes('abcd') == [3, 1]
assert sizes('aaaa') == [3, 1], sizes('aaaa')
''')

plant('S04-own-bin-width', 'S04', 'source.py', [(
'''                min_mag=src_mfd.min_mag, bin_width=src_mfd.bin_width,
''', '''                min_mag=src_mfd.min_mag, bin_width=bin_width or src_mfd.bin_width,
''')], 'an incremental magnitude distribution with a bin width different from that of the converter',
'the bin width of the converter replaces the one of the source', '''
from openquake.commonlib import source
from openquake.nrmllib import models
c = source.NrmlHazardlibConverter(50., 1., 1., 10.)
m = models.IncrementalMFD()
m.min_mag = 5.; m.bin_width = 1.; m.occur_rates = [1.]
assert c._mfd_to_hazardlib(m).bin_width == 1.
m.bin_width = .2
assert c._mfd_to_hazardlib(m).bin_width == .2
''')

plant('S04-zero-depth', 'S04', 'source.py', [(
'''            upper_seismogenic_depth=src.geometry.upper_seismo_depth,
            lower_seismogenic_depth=src.geometry.lower_seismo_depth,
            fault_trace=fault_trace,
            dip=src.geometry.dip,
''', '''            upper_seismogenic_depth=src.geometry.upper_seismo_depth or 0.01,
            lower_seismogenic_depth=src.geometry.lower_seismo_depth,
            fault_trace=fault_trace,
            dip=src.geometry.dip,
''')], 'a simple fault which reaches the surface (upper depth zero)',
'the fault starts below the surface', '''
from openquake.commonlib import source
from openquake.nrmllib import models
import types
got = []
def fault(depth):
    c = source.NrmlHazardlibConverter(50., 1., 1., 10.)
    c._mfd_to_hazardlib = lambda m: 'mfd'
    src = types.SimpleNamespace if hasattr(types, 'SimpleNamespace') else None
    class X(object):
        pass
    src = X(); src.geometry = X()
    src.geometry.wkt = 'LINESTRING(1 2, 3 4)'
    src.geometry.upper_seismo_depth = depth
    src.geometry.lower_seismo_depth = 20.
    src.geometry.dip = 30.
    src.id = 'i'; src.name = 'n'; src.trt = 'V'; src.mfd = None
    src.mag_scale_rel = 'WC1994'; src.rupt_aspect_ratio = 1.; src.rake = 0.
    return c._simple_to_hazardlib(src).upper_seismogenic_depth
assert fault(5.) == 5.
assert fault(0.) == 0., fault(0.)
''')

PAR = '''
import os
os.environ['OQ_NO_DISTRIBUTE'] = '1'
from openquake.commonlib import parallel
def ident(x):
    return x
'''
plant('P01-falsy-results', 'P01', 'parallel.py', [(
'''            res = agg(acc, val)
            log_percent.next()
''', '''            res = agg(acc, val) if val else acc  # nothing to aggregate
            log_percent.next()
''')], 'a call which returns None, zero or an empty value, with an aggregation for which it matters',
'results which are false are not aggregated', PAR + '''
def run(*vals):
    return parallel.map_reduce(
        ident, [(v,) for v in vals], lambda acc, v: acc + [v], [])
assert run(1, 2) == [1, 2]
assert run(1, 0, None) == [1, 0, None], run(1, 0, None)
''')

plant('P02-shared-unpickled', 'P02', 'parallel.py', [(
'''        return cPickle.loads(self.pik)
''', '''        if not hasattr(self, 'obj'):
            self.obj = cPickle.loads(self.pik)
        return self.obj
''')], 'unpickling the same object twice and changing the first copy in between',
'the copies are the same object, so changes to one show in the other', PAR + '''
p = parallel.Pickled([1])
assert p.unpickle() == [1]
p.unpickle().append(2)
assert p.unpickle() == [1], p.unpickle()
''')

plant('P03-single-task', 'P03', 'parallel.py', [(
'''    progress('%s 100%%', taskname)
    yield done
''', '''    if todo > 1:
        progress('%s 100%%', taskname)
    yield done
''')], 'exactly one task', 'the end of a single task is not reported', PAR + '''
def msgs(n):
    out = []
    gen = parallel.log_percent_gen('t', n, lambda *a: out.append(a[0] % a[1:]))
    for i in range(n + 1):
        gen.next()
    return out
assert msgs(2)[-1] == 't 100%'
assert msgs(1)[-1] == 't 100%', msgs(1)
''')

plant('P04-first-start', 'P04', 'parallel.py', [(
'''        self._start_time = time.time()
        self.start_time = datetime.fromtimestamp(self._start_time)
''', '''        if self._start_time is None:
            self._start_time = time.time()
        self.start_time = datetime.fromtimestamp(self._start_time)
''')], 'a monitor used for a second block',
'the start and the duration of the second block count from the first one', PAR + '''
import time
from datetime import datetime
class M(parallel.PerformanceMonitor):
    def __init__(self):
        self._procs = []
        self._start_time = None
    def on_exit(self):
        pass
m = M()
with m:
    pass
time.sleep(.5)
t0 = datetime.now()
with m:
    pass
assert m.duration < .4, m.duration
''')

plant('I01-relative-name', 'I01', 'readini.py', [(
'''    base_path = os.path.dirname(os.path.abspath(source.name))
''', '''    base_path = os.path.dirname(source.name)
''')], 'a configuration file opened by a relative name',
'the paths of the inputs stay relative to the current directory', '''
import os, shutil, tempfile
from openquake.commonlib import readini
d = tempfile.mkdtemp()
try:
    with open(os.path.join(d, 'job.ini'), 'w') as f:
        f.write('[general]\\nsite_file = s.csv\\n')
    def path(name):
        with open(name) as f:
            return readini.parse_config(f)['inputs']['site']
    assert path(os.path.join(d, 'job.ini')) == os.path.join(d, 's.csv')
    class F(object):
        def __init__(self):
            self.lines = ['[general]\\n', 'site_file = s.csv\\n']
            self.name = 'job.ini'
        def readline(self):
            return self.lines.pop(0) if self.lines else ''
    got = readini.parse_config(F())['inputs']['site']
    assert os.path.isabs(got), got
finally:
    shutil.rmtree(d)
''')

plant('I02-subdirectory', 'I02', 'readini.py', [(
'''            os.path.join(base_path, src_path)
''', '''            os.path.join(base_path, os.path.basename(src_path))
''')], 'a logic tree naming a source model in a subdirectory',
'the subdirectory is lost', '''
import os, shutil, tempfile
from openquake.commonlib import readini
d = tempfile.mkdtemp()
def paths(name):
    with open(os.path.join(d, 'lt.xml'), 'w') as f:
        f.write('<nrml xmlns="http://openquake.org/xmlns/nrml/0.4">'
            '<logicTree logicTreeID="l"><logicTreeBranchingLevel branchingLevelID="bl">'
            '<logicTreeBranchSet uncertaintyType="sourceModel" branchSetID="bs">'
            '<logicTreeBranch branchID="b"><uncertaintyModel>' + name +
            '</uncertaintyModel><uncertaintyWeight>1</uncertaintyWeight>'
            '</logicTreeBranch></logicTreeBranchSet></logicTreeBranchingLevel>'
            '</logicTree></nrml>')
    with open(os.path.join(d, 'job.ini'), 'w') as f:
        f.write('[general]\\nsource_model_logic_tree_file = lt.xml\\n')
    with open(os.path.join(d, 'job.ini')) as f:
        return readini.parse_config(f)['inputs']['source']
try:
    assert paths('a.xml') == [os.path.join(d, 'a.xml')]
    assert paths('m/a.xml') == [os.path.join(d, 'm/a.xml')], paths('m/a.xml')
finally:
    shutil.rmtree(d)
''')

plant('K01-fallback', 'K01', 'riskloaders.py', [(
'''        if key not in inputs:
            continue
''', '''        if key not in inputs:  # use the model without retrofitting
            key = key[:len(key) - len(retro)]
        if key not in inputs:
            continue
''')], 'retrofitted models asked for a loss type that has only the other one',
'the model without retrofitting is used instead of none', '''
from openquake.commonlib import riskloaders
riskloaders._get_vulnerability_functions = lambda name: {'tax': name}
def vfs(retro):
    return dict(riskloaders.get_taxonomy_vfs(
        {'structural_vulnerability': 'a'}, ['structural'], retro))
assert vfs(False) == {'tax': {'structural': 'a'}}
assert vfs(True) == {}, vfs(True)
''')

plant('K02-last-measure', 'K02', 'riskloaders.py', [(
'''        dic = dict(damage=List(ffs, imt=tax_imt[taxonomy]))
''', '''        dic = dict(damage=List(ffs, imt=iml['IMT']))
''')], 'a fragility model with different intensity measures for different taxonomies',
'all the taxonomies get the measure of the last one', '''
from openquake.commonlib import riskloaders
from openquake.risklib import workflows
def imts(*pairs):
    riskloaders.parsers.FragilityModelParser = lambda content: (
        [('continuous', ['a'])] +
        [(tax, {'IMT': imt}, [(1., 2.)], None) for tax, imt in pairs])
    got = []
    class D(object):
        def __init__(self, dic):
            got.append(dic['damage'].imt)
    riskloaders.workflows.Damage = D
    riskloaders.get_damage_states_and_risk_models('x')
    return sorted(got)
assert imts(('t', 'PGA'), ('u', 'PGA')) == ['PGA', 'PGA']
assert imts(('t', 'PGA'), ('u', 'PGV')) == ['PGA', 'PGV']
''')
