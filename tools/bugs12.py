"""Bugs planted without looking at the checks, twelfth round"""
from plant import plant

plant('S04-cached-mfd', 'S04', 'source.py', [(
'''            assert bin_width is not None
            return mfd.TruncatedGRMFD(
                a_val=src_mfd.a_val, b_val=src_mfd.b_val,
                min_mag=src_mfd.min_mag,
                max_mag=src_mfd.max_mag,
                bin_width=bin_width
            )
''', '''            assert bin_width is not None
            cache = self.__dict__.setdefault('_mfds', {})
            key = (src_mfd.a_val, src_mfd.b_val, src_mfd.max_mag)
            if key not in cache:
                cache[key] = mfd.TruncatedGRMFD(
                    a_val=src_mfd.a_val, b_val=src_mfd.b_val,
                    min_mag=src_mfd.min_mag,
                    max_mag=src_mfd.max_mag,
                    bin_width=bin_width
                )
            return cache[key]
''')], 'two sources converted by the same converter with the same a, b and '
'greatest magnitude', 'the second has the least magnitude of the first', '''
from openquake.commonlib import source as S
from openquake.nrmllib import models as M
conv = S.NrmlHazardlibConverter(50., 5., .1, 10.)
one, two = [conv._mfd_to_hazardlib(M.TGRMFD(
    a_val=3., b_val=1., min_mag=m, max_mag=7.)) for m in (5., 6.)]
assert one.min_mag == 5. and two.min_mag == 6., (one.min_mag, two.min_mag)
''')

plant('S04-shared-tom', 'S04', 'source.py', [(
'''        self.default_tom = PoissonTOM(investigation_time) \\
            if investigation_time else None  # None for scenario calculator
''', '''        toms = self.__class__.__dict__.get('toms', {})
        if investigation_time and int(investigation_time) not in toms:
            toms[int(investigation_time)] = PoissonTOM(investigation_time)
        self.__class__.toms = toms
        self.default_tom = toms[int(investigation_time)] \\
            if investigation_time else None  # None for scenario calculator
''')], 'two converters whose investigation times have the same integer part',
'the second has the time of the first', '''
from openquake.commonlib import source as S
one, two = [S.NrmlHazardlibConverter(t, 5., .1, 10.) for t in (1.25, 1.5)]
assert one.default_tom.time_span == 1.25
assert two.default_tom.time_span == 1.5, two.default_tom.time_span
''')

plant('K01-insured', 'K01', 'riskloaders.py', [(
'''        workflow = workflows.Scenario(vf_by_loss_type, insured_losses)
''', '''        workflow = workflows.Scenario(
            vf_by_loss_type,
            insured_losses and vf_by_loss_type.keys() != ['fatalities'])
''')], 'a taxonomy with fatalities only and insured losses',
'its risk model does not know that losses are insured', '''
from openquake.commonlib import riskloaders as R
R._get_vulnerability_functions = lambda f: {f: 'vf'}
R.workflows.Scenario = lambda vf, insured: insured
got = {}
def rm(tax, wf):
    got[tax] = wf
R.workflows.RiskModel = rm
R.get_risk_models({'structural_vulnerability': 'a', 'occupants_vulnerability': 'b'},
                  ['structural', 'fatalities'], True)
assert got == {'a': True, 'b': True}, got
''')

plant('K02-level-zero', 'K02', 'riskloaders.py', [(
'''            if no_damage_limit is None:
''', '''            if no_damage_limit is None or no_damage_limit in iml['imls']:
''')], 'a limit for no damage equal to one of the levels',
'the limit is not put before the levels', '''
from openquake.commonlib import riskloaders as R
def levels(limit):
    R.parsers.FragilityModelParser = lambda f: iter([
        ('discrete', ['a']),
        ('t', {'IMT': 'PGA', 'imls': [0.5, 1.0]}, [[0.1, 0.2]], limit)])
    seen = []
    R.scientific.FragilityFunctionDiscrete = lambda imls, poes, nd: seen.append(
        (list(imls), list(poes), nd))
    R.get_damage_states_and_risk_models('x')
    return seen
assert levels(.1) == [([.1, .5, 1.], [0., .1, .2], .1)]
assert levels(.5) == [([.5, .5, 1.], [0., .1, .2], .5)], levels(.5)
''')

plant('I01-sites-split', 'I01', 'readini.py', [(
'''    reader = csv.reader(fh)
    coords = []
    for lon, lat in reader:
''', '''    coords = []
    for line in fh:
        lon, lat = line.strip().split(',')
''')], 'a file of sites with the coordinates within quotes',
'the quotes stay in the sites', '''
import StringIO
from openquake.commonlib import readini
def sites(text):
    return readini._parse_sites_csv(StringIO.StringIO(text))
assert sites('1.0,2.0\\n3.0,4.0\\n') == 'MULTIPOINT(1.0 2.0, 3.0 4.0)'
assert sites('"1.0","2.0"\\r\\n') == 'MULTIPOINT(1.0 2.0)', sites('"1.0","2.0"\\r\\n')
''')

plant('L04-cached-filter', 'L04', 'logictree.py', [(
'''        if not self.filter_source(source):
''', '''        cache = self.__dict__.setdefault('_selected', {})
        key = (source.source_id, source.tectonic_region_type)
        if key not in cache:
            cache[key] = self.filter_source(source)
        if not cache[key]:
''')], 'sources of the same identifier and region but of different '
'types in two source models', 'the filter of the first decides for the second', '''
from openquake.commonlib import logictree
import openquake.hazardlib.mfd
H = logictree.openquake.hazardlib
ops = []
class M(H.mfd.TruncatedGRMFD):
    def __init__(self):
        pass
    def modify(self, what, args):
        ops.append(what)
class A(H.source.AreaSource):
    def __init__(self):
        pass
    source_id, tectonic_region_type, mfd = '1', 'Volcanic', M()
class F(H.source.SimpleFaultSource):
    def __init__(self):
        pass
    source_id, tectonic_region_type, mfd = '1', 'Volcanic', M()
bs = logictree.BranchSet('bGRRelative', {'applyToSourceType': 'area'})
bs.apply_uncertainty(.1, A())
assert len(ops) == 1
bs.apply_uncertainty(.1, F())
assert len(ops) == 1, ops
''')

plant('A01-twice-listed', 'A01', 'csvmanager.py', [(
'''        return set(i.filename for i in self.zip.infolist()
                   if i.filename.startswith(prefix))
''', '''        return [i.filename for i in self.zip.infolist()
                if i.filename.startswith(prefix)]
''')], 'a file of a zip archive written twice', 'it is listed twice', '''
import os, shutil, tempfile
from openquake.commonlib import csvmanager as C
d = tempfile.mkdtemp()
try:
    a = C.ZipArchive(os.path.join(d, 'x.zip'), 'a')
    for text in 'ab':
        f = a.open('x.csv', 'w')
        f.write(text)
        f.close()
    assert sorted(a.extract_filenames()) == ['x.csv'], a.extract_filenames()
finally:
    shutil.rmtree(d)
''')

plant('R02-other-class', 'R02', 'record.py', [(
'''    def __eq__(self, other):
        """
        A record is equal to another sequence if they have the same
        length and content.
        """
        return len(self) == len(other) and all(
            x == y for x, y in zip(self, other))

    def __ne__(self, other):
        """
        A record is different from another sequence if their lenghts
        are different or if the contents are different.
        """
        if len(self) != len(other):
            return True
        return not self == other

    def __len__(self):
        """The number of columns in the record"""
''', '''    def __eq__(self, other):
        """
        A record is equal to another sequence if they have the same
        length and content.
        """
        if isinstance(other, Record) and (
                self.__class__.fieldnames != other.__class__.fieldnames):
            return False
        return len(self) == len(other) and all(
            x == y for x, y in zip(self, other))

    def __ne__(self, other):
        """
        A record is different from another sequence if their lenghts
        are different or if the contents are different.
        """
        if len(self) != len(other):
            return True
        return not self == other

    def __len__(self):
        """The number of columns in the record"""
''')], 'records of types with other fields', 'they are never equal', '''
from openquake.commonlib import record, valid
class A(record.Record):
    pkey = record.Unique('x')
    x = record.Field(str)
class B(record.Record):
    pkey = record.Unique('y')
    y = record.Field(str)
assert A('1') == A('1') and A('1') == ['1']
assert A('1') == B('1')
''')

plant('S02-one-point', 'S02', 'source.py', [(
'''    num_points = len(mesh)
    area_mfd = area_src.mfd
''', '''    num_points = len(mesh)
    area_mfd = area_src.mfd
    if num_points == 1:  # nothing to split
        yield area_src
        return
''')], 'an area with a mesh of one point', 'it stays an area', '''
from openquake.commonlib import source
from openquake.hazardlib import mfd
class Mesh(object):
    lons, lats = [1.], [2.]
    def __len__(self):
        return 1
class Poly(object):
    def discretize(self, d):
        return Mesh()
class A(object):
    polygon = Poly()
    mfd = mfd.EvenlyDiscretizedMFD(min_mag=5., bin_width=1., occurrence_rates=[1.])
    source_id = name = tectonic_region_type = rupture_mesh_spacing = 'x'
    magnitude_scaling_relationship = rupture_aspect_ratio = 'x'
    upper_seismogenic_depth = lower_seismogenic_depth = 'x'
    nodal_plane_distribution = hypocenter_distribution = 'x'
    temporal_occurrence_model = 'x'
source.source.PointSource = lambda **kw: kw['source_id']
source.geo.Point = lambda *a: a
assert list(source.area_to_point_sources(A(), 10)) == ['x-0']
''')

plant('S01-filter-magnitudes', 'S01', 'source.py', [(
'''                if src_filter(src) is not None]
        return self.__class__(self.trt, srcs)
''', '''                if src_filter(src) is not None]
        if len(srcs) == len(self.sources):
            return self
        return self.__class__(self.trt, srcs)
''')], 'a filter keeping all the sources, and the old collector changed after',
'the collectors are the same', '''
from openquake.commonlib import source as S
class Src(object):
    tectonic_region_type = 'T'
    class mfd(object):
        @staticmethod
        def get_min_max_mag():
            return 5., 6.
sc = S.SourceCollector('T', [Src()])
new = sc.filter_sources(lambda s: 1)
sc.update(Src())
assert len(new.sources) == 1, new.sources
''')

plant('P02-unpickle-once', 'P02', 'parallel.py', [(
'''        return cPickle.loads(self.pik)
''', '''        if not hasattr(self, 'obj'):
            self.obj = cPickle.loads(self.pik)
        return self.obj
''')], 'an object unpickled twice and changed in between',
'the second has the changes made to the first', '''
from openquake.commonlib import parallel
p = parallel.Pickled([1])
p.unpickle().append(2)
assert p.unpickle() == [1], p.unpickle()
''')

plant('P02-protocol', 'P02', 'parallel.py', [(
'''        self.pik = cPickle.dumps(obj, cPickle.HIGHEST_PROTOCOL)
''', '''        self.pik = cPickle.dumps(obj)
''')], 'an object with slots', 'it cannot be pickled', '''
from openquake.commonlib import parallel
class P(object):
    __slots__ = ['x']
p = P()
p.x = 1
assert parallel.Pickled([1]).unpickle() == [1]
assert parallel.Pickled(p).unpickle().x == 1
''')

plant('P04-old-error', 'P04', 'parallel.py', [(
'''        self.exc = None
        self._start_time''', '''        self._start_time'''), (
'''        self.exc = exc
        procs''', '''        self.exc = exc or self.exc
        procs''')], 'a monitor used again after an error',
'the error of the first time stays', '''
from openquake.commonlib import parallel
class M(parallel.PerformanceMonitor):
    def on_exit(self):
        pass
m = M()
try:
    with m:
        1 / 0
except ZeroDivisionError:
    assert m.exc is not None
with m:
    pass
assert m.exc is None, m.exc
''')

plant('V02-unicode-word', 'V02', 'valid.py', [(
'''        self.rx = re.compile(regex)
''', '''        self.rx = re.compile(regex, re.UNICODE)
''')], 'a name with a letter out of ASCII', 'it is accepted', u'''
# -*- coding: utf-8 -*-
from openquake.commonlib import valid
def refused(x):
    try:
        valid.name(x)
    except ValueError:
        return True
assert not refused(u'abc')
assert refused(u'ab\\xe9')
'''.lstrip())

plant('C05-known-digits', 'C05', 'converter.py', [(
'''            if imt.startswith('SA'):
                attr = dict(IMT='SA', saPeriod=imt[3:-1], saDamping='5')
''', '''            if imt.startswith('SA'):
                attr = dict(IMT='SA', saPeriod=imt[3:-1].lstrip('0') or '0',
                            saDamping='5')
''')], 'a period with zeros in front', 'the period loses them', '''
from openquake.commonlib import converter, record, records
ts = record.TableSet(converter.GmfCollection)
ts.insert(records.GmfSet('0', ''))
for imt in 'SA(0.5)', 'SA(12)':
    ts.insert(records.Gmf('0', imt, ''))
    ts.insert(records.GmfData('0', imt, '', '1', '1', '1'))
n = ts.to_node()
assert [g['saPeriod'] for g in n] == ['0.5', '12'], [g['saPeriod'] for g in n]
''')

