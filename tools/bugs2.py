"""Planted bugs in the logic trees, sources, parallel, ini and risk parts"""
from plant import plant

LT = '''
import os, shutil, tempfile
from decimal import Decimal
from openquake.commonlib import logictree as L
from openquake.hazardlib import mfd
import openquake.hazardlib

def bset(typ, branches, n=[0], **attrs):
    n[0] += 1
    return '<logicTreeBranchSet uncertaintyType="%s" branchSetID="bs%d" %s>%s</logicTreeBranchSet>' % (
        typ, n[0], ' '.join('%s="%s"' % i for i in attrs.items()),
        ''.join('<logicTreeBranch branchID="%s"><uncertaintyModel>%s</uncertaintyModel>'
                '<uncertaintyWeight>%s</uncertaintyWeight></logicTreeBranch>' % b
                for b in branches))

def tree(*levels):
    return ('<nrml xmlns="http://openquake.org/xmlns/nrml/0.4"><logicTree logicTreeID="lt">%s</logicTree></nrml>'
            % ''.join('<logicTreeBranchingLevel branchingLevelID="l%d">%s</logicTreeBranchingLevel>'
                      % (i, ''.join(l)) for i, l in enumerate(levels)))

def smlt(xml, **kw):
    kw.setdefault('validate', False)
    return L.SourceModelLogicTree(xml, '.', 'lt.xml', **kw)

def point(id, a=4.0, b=1.0):
    src = object.__new__(openquake.hazardlib.source.PointSource)
    src.source_id, src.tectonic_region_type = id, 'Volcanic'
    src.mfd = mfd.TruncatedGRMFD(5.0, 7.0, 0.1, a, b)
    return src
'''

plant('L01-late-open-ends', 'L01', 'logictree.py', [(
'''        new_open_ends = set()
        branchsets = branchinglevel_node''', '''        # branches without a child wait for the next level
        new_open_ends = set(
            branch for branch in self.open_ends
            if branchinglevel_node.find(
                './/*[@applyToBranches]') is not None and depth > 1)
        branchsets = branchinglevel_node'''), (
'''        for branch in self.open_ends:
            branch.child_branchset = branchset
''', '''        for branch in self.open_ends:
            if branch.child_branchset is None:
                branch.child_branchset = branchset
''')], 'a branchset applied to some branches at the third level or later, and one more level after it',
'branches left without children by a selective level are extended by the level after it, so there are paths which are not in the tree',
LT + '''
xml = tree([bset('sourceModel', [('a', 'm.xml', '1')])],
           [bset('bGRRelative', [('b', '0.1', '0.5'), ('c', '0.2', '0.5')])],
           [bset('bGRRelative', [('d', '0.1', '1')], applyToBranches='b')],
           [bset('maxMagGRRelative', [('e', '0.1', '1')])])
paths = [r.lt_path for r in smlt(xml)]
assert paths == [('a', 'b', 'd', 'e'), ('a', 'c')], paths
''')

plant('L02-float-weights', 'L02', 'logictree.py', [(
'''        if weight_sum != 1.0:
''', '''        if float(weight_sum) != 1.0:
''')], 'weights with more digits than a float holds, as 0.3333333333333333333 three times',
'the sum is rounded before it is compared, so weights that do not sum up to one are accepted',
LT + '''
xml = tree([bset('sourceModel', [(c, 'm.xml', '0.3333333333333333333') for c in 'abc'])])
try:
    smlt(xml)
except L.ValidationError:
    pass
else:
    raise AssertionError('weights accepted')
''')

plant('L03-one-generator', 'L03', 'logictree.py', [(
'''        self.num_samples = num_samples
        parser =''', '''        self.num_samples = num_samples
        self.rnd = random.Random(seed)
        parser ='''), (
'''            rnd = random.Random(self.seed)
            for _ in xrange(self.num_samples):
                name, sm_lt_path = self.sample_path(rnd)
''', '''            for _ in xrange(self.num_samples):
                name, sm_lt_path = self.sample_path(self.rnd)
''')], 'the same logic tree object iterated twice with sampling',
'the second iteration goes on with the random numbers, so the sample depends on what was done before and not only on the seed',
LT + '''
lt = smlt(tree([bset('sourceModel', [(c, c + '.xml', '0.25') for c in 'abcd'])]),
          seed=42, num_samples=30)
assert [r.lt_path for r in lt] == [r.lt_path for r in lt]
''')

plant('L04-substring-id', 'L04', 'logictree.py', [(
'''            filters['applyToSources'] = filters['applyToSources'].split()
''', '''            filters['applyToSources'] = ' '.join(
                filters['applyToSources'].split())
''')], 'a source whose identifier is a part of the identifier named by the filter',
'the identifier is searched in the text of the filter, so an uncertainty for source 12 changes the source 1 as well',
LT + '''
lt = smlt(tree([bset('sourceModel', [('a', 'm.xml', '1')])],
               [bset('bGRRelative', [('b', '0.5', '1')], applyToSources='12 31')]))
fn = lt.make_apply_uncertainties(['a', 'b'])
one, twelve = point('1'), point('12')
fn(one), fn(twelve)
assert twelve.mfd.b_val == 1.5
assert one.mfd.b_val == 1.0, one.mfd.b_val
''')

plant('L04-level-order', 'L04', 'logictree.py', [(
'''                branchsets_and_uncertainties.append((branchset, branch.value))
''', '''                branchsets_and_uncertainties.append((branchset, branch.value))
                # absolute values are the base of the relative ones
                branchsets_and_uncertainties.sort(
                    key=lambda bu: not bu[0].uncertainty_type.endswith(
                        'Absolute'))
''')], 'a path with a relative uncertainty followed by an absolute one on the same source',
'the absolute modifications are made first, whatever the order of the levels, so the relative one is applied on top',
LT + '''
lt = smlt(tree([bset('sourceModel', [('a', 'm.xml', '1')])],
               [bset('bGRRelative', [('b', '0.5', '1')])],
               [bset('abGRAbsolute', [('c', '3 0.9', '1')], applyToSources='1')]))
src = point('1')
lt.make_apply_uncertainties(['a', 'b', 'c'])(src)
assert (src.mfd.a_val, src.mfd.b_val) == (3.0, 0.9), vars(src.mfd)
''')

plant('L05-nothing-kept', 'L05', 'logictree.py', [(
'''        if validate:
            self.validate_tree(tree_node, self.root_branchset)
''', '''        if validate and self.root_branchset is not None:
            self.validate_tree(tree_node, self.root_branchset)
''')], 'a GMPE logic tree all of whose branchsets are for unknown tectonic region types',
'such a tree is accepted by the validation although the known types have no GSIM at all',
LT + '''
xml = tree([bset('gmpeModel', [('b', 'SadighEtAl1997', '1')],
                 applyToTectonicRegionType='Volcanic')])
try:
    L.GMPELogicTree(['Stable Continental Crust'], xml, '.', 'lt.xml')
except L.ValidationError:
    pass
else:
    raise AssertionError('accepted')
''')

plant('L06-first-uncertainty', 'L06', 'logictree.py', [(
'''        # with T tectonic region types there are T groups and T branches
''', '''        # a GSIM listed again in a group gives the same realization
        groups = [[b for i, b in enumerate(g) if b.uncertainty not in [
            p.uncertainty for p in g[:i]] or b.weight != g[0].weight]
            for g in groups]
        # with T tectonic region types there are T groups and T branches
''')], 'a branchset with the same GSIM and the same weight in two branches',
'the second branch is dropped: realizations are missing and the weights do not sum up to one',
LT + '''
xml = tree([bset('gmpeModel', [('b1', 'SadighEtAl1997', '0.5'), ('b2', 'SadighEtAl1997', '0.5')],
                 applyToTectonicRegionType='Volcanic')])
d = tempfile.mkdtemp()
try:
    fname = os.path.join(d, 'lt.xml')
    with open(fname, 'w') as f:
        f.write(xml)
    lt = L.GsimLogicTree(fname, 'applyToTectonicRegionType', ['Volcanic'])
    res = list(lt)
finally:
    shutil.rmtree(d)
assert len(res) == 2 == lt.get_num_paths(), res
assert sum(r.weight for r in res) == 1
''')

SRC = '''
import os, shutil, tempfile
from openquake.commonlib import source
from openquake.hazardlib import geo, mfd, pmf, scalerel, source as hs, tom
from openquake.nrmllib import models

def conv():
    return source.NrmlHazardlibConverter(50., 1., 1., 10.)

def point(id, trt='Volcanic', mmin=4.0, n=3):
    geom = models.PointGeometry('POINT(1 2)', 0., 10.)
    return models.PointSource(
        id=id, name='n' + id, trt=trt, geometry=geom, mag_scale_rel='WC1994',
        rupt_aspect_ratio=1.5, mfd=models.IncrementalMFD(mmin, 0.1, [0.1] * n),
        nodal_plane_dist=[models.NodalPlane(1., 0., 90., 0.)],
        hypo_depth_dist=[models.HypocentralDepth(1., 5.)])

POINT = """<pointSource id="%s" name="p" tectonicRegion="%s">
<pointGeometry><gml:Point><gml:pos>1 2</gml:pos></gml:Point>
<upperSeismoDepth>0</upperSeismoDepth><lowerSeismoDepth>10</lowerSeismoDepth></pointGeometry>
<magScaleRel>WC1994</magScaleRel><ruptAspectRatio>1.5</ruptAspectRatio>
<incrementalMFD minMag="4.0" binWidth="0.1"><occurRates>0.1 0.2</occurRates></incrementalMFD>
<nodalPlaneDist><nodalPlane probability="1" strike="0" dip="90" rake="0"/></nodalPlaneDist>
<hypoDepthDist><hypoDepth probability="1" depth="5"/></hypoDepthDist></pointSource>"""

def parse(pairs, *args):
    d = tempfile.mkdtemp()
    try:
        fname = os.path.join(d, 'model.xml')
        with open(fname, 'w') as f:
            f.write('<nrml xmlns="http://openquake.org/xmlns/nrml/0.4" '
                    'xmlns:gml="http://www.opengis.net/gml"><sourceModel name="m">%s'
                    '</sourceModel></nrml>' % ''.join(POINT % p for p in pairs))
        return source.parse_source_model(fname, conv(), *args)
    finally:
        shutil.rmtree(d)
'''

plant('S01-ids-per-type', 'S01', 'source.py', [(
'''        if src.source_id in source_ids:
''', '''        if (src.source_id, src.tectonic_region_type) in source_ids:
'''), (
'''        source_ids.add(src.source_id)
''', '''        source_ids.add((src.source_id, trt))
''')], 'two sources of different tectonic region types with the same identifier',
'the repeated identifier is not refused when the tectonic region types differ',
SRC + '''
parse([('1', 'Volcanic'), ('2', 'Active Shallow Crust')])
try:
    parse([('1', 'Volcanic'), ('1', 'Active Shallow Crust')])
except source.DuplicateID:
    pass
else:
    raise AssertionError('accepted')
''')

plant('S01-early-magnitudes', 'S01', 'source.py', [(
'''        apply_uncertainties(src)
        trt = src.tectonic_region_type
''', '''        trt = src.tectonic_region_type
'''), (
'''        source_stats_dict[trt].update(src)
        source_ids''', '''        source_stats_dict[trt].update(src)
        apply_uncertainties(src)
        source_ids''')], 'an uncertainty which changes the minimum or maximum magnitude of a source',
'the collector takes the magnitudes before the uncertainties are applied',
SRC + '''
def change(src):
    src.mfd = mfd.EvenlyDiscretizedMFD(5.0, 0.1, [0.1])
col, = parse([('1', 'Volcanic')], change)
assert (col.min_mag, col.max_mag) == col.sources[0].mfd.get_min_max_mag(), col.max_mag
''')

plant('S02-tiny-rates', 'S02', 'source.py', [(
'''        if rate:  # ignore zero occurency rate
''', '''        if rate > 1e-8:  # ignore zero occurency rate
''')], 'a fault with a very small but non-zero occurrence rate (below 1e-8 per year)',
'the magnitudes with such rates get lost in the splitting, although they are kept by the unsplit source',
SRC + '''
src = object.__new__(hs.SimpleFaultSource)
src.source_id = 'f'
src.mfd = mfd.EvenlyDiscretizedMFD(6.0, 0.1, [1e-3, 2e-9, 0., 1e-4])
rates = [r for s in source.split_source(src, 10.) for r in s.mfd.get_annual_occurrence_rates()]
assert len(rates) == 3, rates
''')

plant('S03-limit-of-all', 'S03', 'source.py', [(
'''            else:
                tot_sources += 1
        self.filtered''', '''            else:
                tot_sources += 1
                self.sources = self.sources[:]
                self.sources.remove(src)
        self.filtered'''), (
'''        self.sources = srcs  # throw away unfiltered sources
''', '''        if len(srcs) > len(self.sources):  # something was split
            self.sources = srcs  # throw away unfiltered sources
''')], 'sources split into as many pieces as there are sources left, for instance a fault with one magnitude',
'the collector keeps the sources before the splitting when the splitting does not increase their number',
SRC + '''
src = object.__new__(hs.SimpleFaultSource)
src.source_id, src.tectonic_region_type = 'f', 'Volcanic'
src.mfd = mfd.EvenlyDiscretizedMFD(6.0, 0.1, [1e-3])
src.count_ruptures = lambda: 3
col = source.SourceCollector('Volcanic')
col.update(src)
blocks = list(col.gen_blocks(lambda s: [1], 1000, 10.))
assert [s.source_id for b in blocks for s in b] == ['f-0']
assert [s.source_id for s in col.sources] == ['f-0'], col.sources[0].source_id
''')

plant('S04-inner-edges', 'S04', 'source.py', [(
'''            edges_wkt.append(src.surface.top_edge_wkt)
            edges_wkt.extend(src.surface.int_edges)
            edges_wkt.append(src.surface.bottom_edge_wkt)
''', '''            edges_wkt.append(src.surface.top_edge_wkt)
            edges_wkt.extend(set(src.surface.int_edges))
            edges_wkt.append(src.surface.bottom_edge_wkt)
''')], 'a characteristic source on a complex fault with three or more inner edges',
'the inner edges are taken in an arbitrary order',
SRC + '''
lines = ['LINESTRING(%d.0 1.0 %d.0, 9.0 2.0 %d.0)' % (i, i, i) for i in range(8)]
geom = models.ComplexFaultGeometry(lines[0], lines[-1], lines[1:-1])
src = models.CharacteristicSource(
    id='c', name='n', trt='Volcanic', rake=0., surface=geom,
    mfd=models.IncrementalMFD(5., .1, [.1]))
calls = []
from_data = geo.ComplexFaultSurface.from_fault_data
geo.ComplexFaultSurface.from_fault_data = staticmethod(
    lambda edges, spacing: calls.append(edges) or from_data(edges, spacing))
conv()(src)
got = [[(p.longitude, p.depth) for p in e.points] for e in calls[0]]
assert got == [[(float(i), float(i)), (9., float(i))] for i in range(8)], got
''')

PAR = '''
import os, logging
from openquake.commonlib import parallel
class Log(list):
    def __call__(self, msg, *args):
        self.append(msg % args)
'''

plant('P01-old-results', 'P01', 'parallel.py', [(
'''            agg_result = self.aggregate_result_set(agg_and_percent, acc)

        self.results = []
''', '''            agg_result = self.aggregate_result_set(agg_and_percent, acc)
            self.results = []

''')], 'a task manager used again after an aggregation, in process',
'the results of the first round are aggregated again in the second',
PAR + '''
os.environ['OQ_NO_DISTRIBUTE'] = '1'
tm = parallel.TaskManager(abs, Log())
tm.submit(-1)
add = lambda acc, v: acc + [v]
assert tm.aggregate_results(add, []) == [1]
tm.submit(-2)
res = tm.aggregate_results(add, [])
assert res == [2], res
''')

plant('P02-equal-once', 'P02', 'parallel.py', [(
'''        obj_id = id(obj)
''', '''        try:
            obj_id = hash(obj), obj  # equal objects have equal pickles
        except TypeError:  # not hashable
            obj_id = id(obj)
''')], 'a sequence with equal objects of different types, as 1 and True or 2 and 2.0',
'equal objects share the pickle of the first, so they come back with its type',
PAR + '''
out = [p.unpickle() for p in parallel.pickle_sequence([1, True, 2.0, 2, [1], [1]])]
assert map(repr, out) == map(repr, [1, True, 2.0, 2, [1], [1]]), out
''')

plant('P03-repeated-percent', 'P03', 'parallel.py', [(
'''            prev_percent = percent
        yield done
''', '''            prev_percent = max(percent - 1, 0)
        yield done
''')], 'more than a hundred tasks',
'with more than a hundred tasks the same percentage is logged again and again',
PAR + '''
log = Log()
gen = parallel.log_percent_gen('t', 300, log)
for i in range(301):
    assert gen.next() == i
assert len(set(log)) == len(log), log[:8]
''')

plant('P04-skipped-process', 'P04', 'parallel.py', [(
'''        for proc in list(self._procs):
''', '''        for proc in self._procs:
''')], 'a process that denies access to its memory followed by another process',
'the process after the one that is removed is skipped in the first measurement, so the differences are wrong',
PAR + '''
import psutil
class Proc(object):
    def __init__(self, pid):
        self.pid, self.n = pid, 0
    def get_memory_info(self):
        if self.pid == 1:
            raise psutil.AccessDenied(1)
        self.n += 100 * self.pid
        return type('Mem', (), {'rss': self.n})
psutil.Process = Proc
class Mon(parallel.PerformanceMonitor):
    def on_exit(self):
        pass
with Mon([1, 2, 3]) as m:
    pass
assert list(m.mem) == [200, 300], m.mem
''')

INI = '''
import os, shutil, tempfile
from openquake.commonlib import readini
d = tempfile.mkdtemp()
def write(name, text):
    name = os.path.join(d, name)
    if not os.path.exists(os.path.dirname(name)):
        os.makedirs(os.path.dirname(name))
    with open(name, 'w') as f:
        f.write(text)
    return name
LT = """<nrml xmlns="http://openquake.org/xmlns/nrml/0.4"><logicTree logicTreeID="lt">
<logicTreeBranchingLevel branchingLevelID="l"><logicTreeBranchSet uncertaintyType="sourceModel" branchSetID="b">
<logicTreeBranch branchID="a"><uncertaintyModel>m.xml</uncertaintyModel><uncertaintyWeight>1</uncertaintyWeight></logicTreeBranch>
</logicTreeBranchSet></logicTreeBranchingLevel></logicTree></nrml>"""
'''

plant('I01-all-file', 'I01', 'readini.py', [(
'''                input_type = key[:-5]
''', '''                input_type = key.replace('_file', '')
''')], 'the name of an input with _file in it more than once, as site_file_list_file',
'the inner _file is removed from the name of the input as well',
INI + '''
try:
    name = write('job.ini', '[a]\\nsite_file_list_file = x.txt\\n')
    with open(name) as f:
        p = readini.parse_config(f)
    assert p['inputs'] == {'site_file_list': os.path.join(d, 'x.txt')}, p
finally:
    shutil.rmtree(d)
''')

plant('I02-beside-the-tree', 'I02', 'readini.py', [(
'''            os.path.join(base_path, src_path)
''', '''            os.path.join(os.path.dirname(smlt), src_path)
''')], 'a source model logic tree in another directory than the configuration file',
'the source models are looked for in the directory of the logic tree instead of the one of the configuration',
INI + '''
try:
    write('trees/lt.xml', LT)
    name = write('job.ini', '[a]\\nsource_model_logic_tree_file = trees/lt.xml\\n')
    with open(name) as f:
        p = readini.parse_config(f)
    assert p['inputs']['source'] == [os.path.join(d, 'm.xml')], p
finally:
    shutil.rmtree(d)
''')

RISK = '''
import os, shutil, tempfile
from openquake.commonlib import riskloaders
d = tempfile.mkdtemp()
def write(name, text):
    name = os.path.join(d, name)
    with open(name, 'w') as f:
        f.write('<nrml xmlns="http://openquake.org/xmlns/nrml/0.4">%s</nrml>' % text)
    return name
VULN = """<vulnerabilityModel><config/><discreteVulnerabilitySet vulnerabilitySetID="s"
assetCategory="population" lossCategory="x"><IML IMT="PGA">0.1 0.2</IML>
<discreteVulnerability vulnerabilityFunctionID="T1" probabilisticDistribution="LN">
<lossRatio>0.1 0.2</lossRatio><coefficientsVariation>0 0</coefficientsVariation>
</discreteVulnerability></discreteVulnerabilitySet></vulnerabilityModel>"""
FRAG = """<fragilityModel format="discrete"><description>d</description>
<limitStates>slight</limitStates><ffs noDamageLimit="%s"><taxonomy>T1</taxonomy>
<IML IMT="PGA" imlUnit="g">0.1 0.2</IML><ffd ls="slight"><poEs>0.3 0.4</poEs></ffd>
</ffs></fragilityModel>"""
'''

plant('K01-missing-type', 'K01', 'riskloaders.py', [(
'''        if key not in inputs:
            continue
''', '''        if key not in inputs:
            break
''')], 'a loss type without a model listed before one that has it',
'the loss types after the first without a model are not loaded',
RISK + '''
try:
    inputs = {'occupants_vulnerability': write('v.xml', VULN)}
    res = dict(riskloaders.get_taxonomy_vfs(inputs, ['structural', 'fatalities']))
    assert sorted(res) == ['T1'] and sorted(res['T1']) == ['fatalities'], res
finally:
    shutil.rmtree(d)
''')

plant('K02-zero-limit', 'K02', 'riskloaders.py', [(
'''            if no_damage_limit is None:
''', '''            if not no_damage_limit:
''')], 'a discrete fragility set with a limit for no damage of zero',
'a limit of zero is taken as no limit: the point of probability zero is not added',
RISK + '''
try:
    states, models = riskloaders.get_damage_states_and_risk_models(write('f.xml', FRAG % '0'))
    ff, = models['T1'].workflow.fragility_functions['damage']
    assert list(ff.imls) == [0.0, 0.1, 0.2] and list(ff.poes) == [0.0, 0.3, 0.4], vars(ff)
finally:
    shutil.rmtree(d)
''')
