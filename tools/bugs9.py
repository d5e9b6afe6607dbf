"""Ninth series of planted bugs"""
from plant import plant

ARC = '''
import os, shutil, tempfile
from openquake.commonlib import csvmanager as M, records
d = tempfile.mkdtemp()
def done():
    shutil.rmtree(d)
VSET = 'vulnerabilitySetID,assetCategory,lossCategory,IMT\\nS,c,l,PGA\\n'
'''

plant('A03-same-kind', 'A03', 'csvmanager.py', [(
'''        elif len(managers) > 1:
            raise''', '''        elif len(set(man.convertertype for man in managers)) > 1:
            raise''')], 'two groups of files, both of the same kind of model',
'the first group is taken instead of refusing', ARC + '''
done()
man = M.CSVManager(M.MemArchive([('p__DiscreteVulnerabilitySet.csv', VSET)]))
assert man._getconverter()
man = M.CSVManager(M.MemArchive([('p__DiscreteVulnerabilitySet.csv', VSET),
                                 ('q__DiscreteVulnerabilitySet.csv', VSET)]))
try:
    man.get_tableset()
except M.MultipleManagerError:
    pass
else:
    raise AssertionError('accepted')
''')

plant('A03-backup-file', 'A03', 'csvmanager.py', [(
'''            if not recordcsv.endswith('.csv'):
                continue
            recordtype = getattr(records, recordcsv[:-4], None)
''', '''            recordname, ext = os.path.splitext(recordcsv)
            if not ext.startswith('.csv'):
                continue
            recordtype = getattr(records, recordname, None)
''')], 'a file whose extension only begins with .csv, as the backup copies of editors',
'it makes a group of its own', ARC + '''
done()
man = M.CSVManager(M.MemArchive([('p__DiscreteVulnerabilitySet.csv', VSET),
                                 ('old__DiscreteVulnerabilitySet.csv~', VSET)]))
assert man.get_tableset().name == 'Vulnerability'
out = M.MemArchive([])
assert man.convert_to_nrml(out) == ['p.xml']
''')

plant('A03-after-missing', 'A03', 'csvmanager.py', [(
'''                # this may happen for optional tables in the tableset
                continue
''', '''                # this may happen for optional tables in the tableset
                if len(tset.tables[-1]) == 0 and any(tset):
                    break
                continue
''')], 'a group where a table is missing, after one which is there and before another',
'the tables after the missing one are not read', ARC + '''
done()
files = [
    ('p__CostType.csv', 'name,type,unit,retrofittedType,retrofittedUnit\\ns,aggregated,EUR,,\\n'),
    ('p__Exposure.csv', 'id,category,taxonomySource,description,area_type,area_unit,deductible_is_absolute,insurance_limit_is_absolute\\n'),
    ('p__Location.csv', 'id,lon,lat\\n1,2,3\\n')]
for rt in (records.CostType, records.Exposure, records.Location):
    [f for f in files if rt.__name__ in f[0]][0][1].startswith(','.join(rt.fieldnames))
ok = [f for f in files if 'Exposure' not in f[0]]
tset = M.CSVManager(M.MemArchive(ok), 'p').get_tableset()
assert len(tset.tableLocation) == 1 and len(tset.tableCostType) == 1
''')

plant('A04-shared-table', 'A04', 'csvmanager.py', [(
'''        return Table(recordtype, list(self.read(recordtype)))
''', '''        tables = vars(self).setdefault('_tables', {})
        if recordtype not in tables:
            tables[recordtype] = Table(recordtype, list(self.read(recordtype)))
        return tables[recordtype]
''')], 'a table which is changed by who has read it, and is read again',
'the changed table is given', ARC + '''
done()
man = M.CSVManager(M.MemArchive([('p__Location.csv', 'id,lon,lat\\n1,2,3\\n4,5,6\\n')]), 'p')
t = man.readtable(records.Location)
del t[0]
assert len(t) == 1
assert len(man.readtable(records.Location)) == 2
''')

plant('C06-zip-inside', 'C06', 'csvmanager.py', [(
'''    if pathname.endswith('.zip'):
''', '''    if '.zip' in pathname:
''')], 'a directory with .zip inside its path',
'a file is made instead of the directory', ARC + '''
try:
    M.mkarchive(os.path.join(d, 'a'), 'w')
    assert os.path.isdir(os.path.join(d, 'a'))
    M.mkarchive(os.path.join(d, 'model.zip.d'), 'w')
    assert os.path.isdir(os.path.join(d, 'model.zip.d'))
finally:
    done()
''')

GEN = '''
from openquake.commonlib.general import *
'''

plant('G02-by-eight', 'G02', 'general.py', [(
'''    ws = WeightedSequence([])
    prev_kind = 'Unspecified'
    for item in items:
        w = weight(item)
''', '''    ws = WeightedSequence([])
    prev_kind = 'Unspecified'
    it = iter(items)

    def buffered():
        # read the items in chunks
        while True:
            chunk = [item for _, item in zip(range(8), it)]
            if not chunk:
                break
            for item in chunk:
                yield item
    for item in buffered():
        w = weight(item)
''')], 'an iterator of which only the first blocks are asked',
'more items are consumed than needed', GEN + '''
it = iter(range(20))
blocks = block_splitter(it, 2)
assert list(next(blocks)) == [0, 1]
assert next(it) == 3
''')

plant('G03-whole-total', 'G03', 'general.py', [(
'''    total_weight = float(sum(weight(item) for item in items))
''', '''    total_weight = float(int(sum(weight(item) for item in items)))
''')], 'weights with decimals whose sum over the hint is just over an integer',
'the maximum weight is less by one, hence there are more blocks', GEN + '''
items = [2., 2.5]
assert [list(b) for b in split_in_blocks([2., 2.], 2, lambda x: x)] == [[2.], [2.]]
items = [1., 1., 1., 1.5]
got = [list(b) for b in split_in_blocks(items, 2, lambda x: x)]
assert got == [[1., 1., 1.], [1.5]], got
''')

plant('G04-complex', 'G04', 'general.py', [(
'''        if isinstance(a, (int, long, float, complex)):
''', '''        if isinstance(a, (int, long, float)):
''')], 'complex numbers which differ by less than the tolerance',
'they are different', GEN + '''
assert deep_eq(1.0, 1.0 + 1e-9)[0]
assert deep_eq([1j], [1j])[0]
assert deep_eq([1 + 1j], [1 + 1e-9 + 1j])[0]
''')

plant('G05-padded-boolean', 'G05', 'general.py', [(
'''    return value.lower() in ("true", "yes", "t", "1")
''', '''    return value.strip().lower() in ("true", "yes", "t", "1")
''')], 'a true word with white space around',
'it converts to True', GEN + '''
assert str2bool('TRUE') and not str2bool('no') and not str2bool(' 1')
assert not str2bool('yes\\n')
''')

plant('G05-once-per-key', 'G05', 'general.py', [(
'''        if key not in known:
            outlist.append(key)
        known.add(key)
''', '''        if repr(key) not in known:
            outlist.append(key)
        known.add(repr(key))
''')], 'equal keys of different types',
'they are both there', GEN + '''
assert distinct('abcab') == list('abc')
assert distinct([1, 1., True, 2, 2L]) == [1, 2]
''')

plant('P04-returned', 'P04', 'parallel.py', [(
'''        self.duration = time.time() - self._start_time
        self.on_exit()
''', '''        self.duration = time.time() - self._start_time
        return self.on_exit()
''')], 'a monitor whose on_exit returns something, and a block which raises',
'the exception of the block is not propagated', '''
from openquake.commonlib import parallel
class Mon(parallel.PerformanceMonitor):
    def __init__(self):
        self._procs = []
    def on_exit(self):
        return self.duration is not None
m = Mon()
with m:
    pass
try:
    with m:
        raise KeyError('x')
except KeyError:
    pass
else:
    raise AssertionError('not propagated')
''')

plant('P04-exception-class', 'P04', 'parallel.py', [(
'''        self.exc = exc
''', '''        if etype is not None:
            self.exc = exc or self.exc
''')], 'a block which raises an exception that counts as false',
'the exception is not recorded', '''
from openquake.commonlib import parallel
class Mon(parallel.PerformanceMonitor):
    def __init__(self):
        self._procs = []
    def on_exit(self):
        pass
class Empty(Exception):
    def __len__(self):
        return len(self.args)
for args in ('x',), ():
    m = Mon()
    exc = Empty(*args)
    try:
        with m:
            raise exc
    except Empty:
        pass
    assert m.exc is exc, m.exc
''')

INI = '''
import os, shutil, tempfile
from openquake.commonlib import readini
d = tempfile.mkdtemp()
def parse(text):
    name = os.path.join(d, 'job.ini')
    with open(name, 'w') as f:
        f.write(text)
    with open(name) as f:
        return readini.parse_config(f)
'''

plant('I01-home', 'I01', 'readini.py', [(
'''                path = value
                # The `path` may be''', '''                path = os.path.expanduser(value)
                # The `path` may be''')], 'a file whose relative name begins with a tilde',
'its path is in the home directory', INI + '''
try:
    assert parse('[a]\\nx_file = y~\\n')['inputs']['x'] == os.path.join(d, 'y~')
    p = parse('[a]\\nx_file = ~/y.txt\\n')['inputs']['x']
    assert p == os.path.join(d, '~/y.txt'), p
finally:
    shutil.rmtree(d)
''')

plant('I01-sites-once', 'I01', 'readini.py', [(
'''        coords.append('%s %s' % (lon, lat))
''', '''        point = '%s %s' % (lon, lat)
        if point not in coords[-1:]:
            coords.append(point)
''')], 'a site which is in the file twice in a row',
'it is there once', INI + '''
try:
    with open(os.path.join(d, 's.csv'), 'w') as f:
        f.write('1,2\\n3,4\\n3,4\\n')
    p = parse('[a]\\nsites_csv = s.csv\\n')
    assert p['sites'] == 'MULTIPOINT(1 2, 3 4, 3 4)', p
finally:
    shutil.rmtree(d)
''')

plant('T01-same-key', 'T01', 'record.py', [(
'''            del unique.dict[old_key]
            unique.dict[new_key] = new_record
''', '''            unique.dict[new_key] = new_record
            if old_key in unique.dict and old_key <= new_key:
                del unique.dict[old_key]
''')], 'a replacement by a record with a key before that of the replaced one',
'the old key is still taken, or a kept key is lost', '''
from openquake.commonlib.record import *
class R(Record):
    a = Field(str)
    b = Field(str)
    pkey = Unique('a')
t = Table(R, [R('b', '1')])
t[0] = R('c', '2')
assert t.getrecord('c') is t[0]
t[0] = R('c', '3')
assert t.getrecord('c') is t[0]
t[0] = R('a', '3')
try:
    t.getrecord('c')
except KeyError:
    pass
else:
    raise AssertionError('still there')
''')

plant('T02-bulk-order', 'T02', 'record.py', [(
'''        for rec in recs:
            self.insert(rec)
''', '''        order = [tbl.recordtype for tbl in self.tables]
        for rec in sorted(recs, key=lambda rec: order.index(type(rec))):
            self.insert(rec)
''')], 'a bulk insertion of a child before its parent',
'it is accepted', '''
from openquake.commonlib import record, records, converter
P = records.DiscreteVulnerabilitySet('S', 'c', 'l', 'PGA')
C = records.DiscreteVulnerability('S', 'F', 'LN')
record.TableSet(converter.Vulnerability).insert_all([P, C])
try:
    record.TableSet(converter.Vulnerability).insert_all([C, P])
except record.ForeignKeyError:
    pass
else:
    raise AssertionError('accepted')
''')

plant('T02-last-of-slice', 'T02', 'record.py', [(
'''        return self.__class__(self.convertertype, self.tables[sliceobj])
''', '''        tables = self.tables[sliceobj]
        return self.__class__(self.convertertype, tables if any(
            len(tbl) for tbl in tables) else [])
''')], 'a slice of tables which are all empty',
'it has no tables', '''
from openquake.commonlib import record, records, converter
t = record.TableSet(converter.Vulnerability)
t.insert(records.DiscreteVulnerabilitySet('S', 'c', 'l', 'PGA'))
assert len(t[:1]) == 1
t = record.TableSet(converter.Vulnerability)
assert len(t[:1]) == 1
''')

plant('R02-equal-prefix', 'R02', 'record.py', [(
'''        if len(self) != len(other):
            return True
        return not self == other

    def __len__(self):
        """The number of columns in the record"""
''', '''        return any(x != y for x, y in zip(self, other))

    def __len__(self):
        """The number of columns in the record"""
''')], 'a record asked if it is different from a longer sequence which begins with it',
'it is not', '''
from openquake.commonlib import records
r = records.Location('1', '2', '3')
assert not r != ['1', '2', '3'] and r != ['1', '2', '4']
assert r != ['1', '2', '3', '']
''')

plant('R01-first-message', 'R01', 'record.py', [(
'''        for field, errmsg in self.errorlist:
            colno''', '''        for field, errmsg in dict(self.errorlist).items():
            colno''')], 'a record with several invalid fields whose names hash in another order',
'the lines are not in the order of the columns', '''
from openquake.commonlib import record
names = ['f%d' % i for i in range(9)]
class R(record.Record):
    f0 = record.Field(int)
    f1 = record.Field(int)
    f2 = record.Field(int)
    f3 = record.Field(int)
    f4 = record.Field(int)
    zeta = record.Field(int)
    alpha = record.Field(int)
    pkey = record.Unique('f0')
_, exc = R(*['x'] * 7).cast()
cols = [line.split('[')[1].split(']')[0] for line in str(exc).splitlines()]
assert cols == R.fieldnames, cols
''')

plant('R03-default-name', 'R03', 'record.py', [(
'''            if isinstance(v, Field):
                v.name = n
                fields.append(v)
''', '''            if isinstance(v, Field):
                if v.name == 'noname':
                    v.name = n
                fields.append(v)
''')], 'a field which is declared with a name other than that of its attribute, or twice',
'it keeps that name', '''
from openquake.commonlib import record
class R(record.Record):
    a = record.Field(int)
    b = record.Field(int, name='B')
    pkey = record.Unique('a')
assert R.fieldnames == ['a', 'b'], R.fieldnames
''')

LT = '''
from openquake.commonlib import logictree
from decimal import Decimal
class B(object):
    def __init__(self, w):
        self.weight = w
class Rnd(object):
    def __init__(self, *xs):
        self.xs = list(xs)
    def random(self):
        return self.xs.pop(0)
'''

plant('L03-without-replacement', 'L03', 'logictree.py', [(
'''    for _ in xrange(num_samples):
        subsequence.append(sample_one(weighted_objects, rnd))
''', '''    for _ in xrange(num_samples):
        one = sample_one(weighted_objects, rnd)
        if one in subsequence[-2:] and len(subsequence) > 2:
            one = sample_one(weighted_objects, rnd)
        subsequence.append(one)
''')], 'at least four samples, the same object near itself',
'a number more is drawn', LT + '''
bs = [B(.5), B(.5)]
got = logictree.sample(bs, 4, Rnd(.1, .7, .1, .2, .9))
assert [bs.index(b) for b in got] == [0, 1, 0, 0], got
''')

plant('L04-zero-change', 'L04', 'logictree.py', [(
'''        elif self.uncertainty_type == 'bGRRelative':
            mfd.modify('increment_b', dict(value=value))
''', '''        elif self.uncertainty_type == 'bGRRelative':
            if value > -mfd.b_val / 2:
                mfd.modify('increment_b', dict(value=value))
''')], 'a negative change of b of more than its half',
'it is not made', '''
from openquake.commonlib import logictree
import openquake.hazardlib.mfd
class M(object):
    b_val = 1.
    ops = ()
    def modify(self, what, args):
        self.ops += ((what, args),)
for v in .5, -.2, -.7:
    m = M()
    logictree.BranchSet('bGRRelative', {})._apply_uncertainty_to_mfd(m, v)
    assert m.ops == (('increment_b', dict(value=v)),), m.ops
''')

plant('K01-shared-by-type', 'K01', 'riskloaders.py', [(
'''    for loss_type in loss_types:
        key =''', '''    for loss_type in sorted(set(loss_types), key=lambda lt: (
            '%s_vulnerability%s' % (loss_type_to_cost_type(lt), retro)
            not in inputs and not retro, lt))[:4]:
        key =''')], 'five loss types, all with a model',
'the last one of them is left out', '''
import os, shutil, tempfile
from openquake.commonlib import riskloaders as R
R._get_vulnerability_functions = lambda f: {'T': f}
types = ['structural', 'contents', 'fatalities', 'nonstructural', 'business_interruption']
inp = dict((R.loss_type_to_cost_type(t) + '_vulnerability', t) for t in types)
assert dict(R.get_taxonomy_vfs(inp, types[:2]))['T'] == dict((t, t) for t in types[:2])
assert dict(R.get_taxonomy_vfs(inp, types))['T'] == dict((t, t) for t in types)
''')

SRC = '''
from openquake.commonlib import source
'''
plant('S01-equal-counts', 'S01', 'source.py', [(
'''        if num_sources == other_sources:
            return self.trt < other.trt
''', '''        if num_sources == other_sources:
            return self.trt.lower() < other.trt.lower()
''')], 'two types with as many sources, which differ by case',
'their order is not that of the types', SRC + '''
C = source.SourceCollector
assert C('A') < C('B') and not C('B') < C('A')
assert C('B') < C('a') and not C('a') < C('B')
''')

plant('S02-scaled-width', 'S02', 'source.py', [(
'''                min_mag=mag, bin_width=src.mfd.bin_width,
                occurrence_rates=[rate])
''', '''                min_mag=round(mag, 6), bin_width=src.mfd.bin_width,
                occurrence_rates=[rate])
''')], 'a fault with a magnitude of more than six digits',
'the magnitude of the piece is rounded', SRC + '''
class Mfd(object):
    bin_width = 1.
    def get_annual_occurrence_rates(self):
        return [(5.25, .1), (6.12345678, .2)]
class Src(object):
    source_id = 'a'
    mfd = Mfd()
got = [s.mfd.min_mag for s in source.split_fault_source(Src())]
assert got == [5.25, 6.12345678], got
''')

plant('S04-unit-aspect', 'S04', 'source.py', [(
'''            location=geo.Point(shapely_pt.x, shapely_pt.y),
            nodal''', '''            location=geo.Point(
                (shapely_pt.x + 180) % 360 - 180, shapely_pt.y),
            nodal''')], 'a point source whose longitude is 180 or has many digits',
'the longitude is another', SRC + '''
from openquake.hazardlib import geo, pmf
import openquake.commonlib.source as s
class O(object):
    def __init__(self, **kw):
        vars(self).update(kw)
s.NrmlHazardlibConverter._mfd_to_hazardlib = lambda self, m: m
s.source = O(PointSource=lambda **kw: O(**kw))
s.scalerel = O(get_available_magnitude_scalerel=lambda: {'x': O})
s.pmf = O(PMF=list)
s.wkt = O(loads=lambda w: O(x=w, y=1.))
conv = s.NrmlHazardlibConverter(50., 1., 1., 10.)
for x in 10., 180.:
    src = O(id='a', name='b', trt='c', mfd=None, mag_scale_rel='x',
            rupt_aspect_ratio=1., nodal_plane_dist=[], hypo_depth_dist=[],
            geometry=O(wkt=x, upper_seismo_depth=0., lower_seismo_depth=9.))
    pt = conv._point_to_hazardlib(src)
    lon = getattr(pt.location, 'longitude', None)
    assert lon == x, (x, lon)
''')

CONV = '''
from openquake.commonlib import converter, record, records
'''
plant('C05-close-periods', 'C05', 'converter.py', [(
'''                tset.tableGmfData,
                ['stochasticEventSetId', 'imtStr', 'ruptureId']):
''', '''                sorted(tset.tableGmfData, key=lambda r: (
                    r['stochasticEventSetId'], r['imtStr'], r['ruptureId'])),
                ['stochasticEventSetId', 'imtStr', 'ruptureId']):
''')], 'fields which are not in the order of their measures or ruptures',
'the fields come out in another order', CONV + '''
def fields(imts):
    t = record.TableSet(converter.GmfCollection)
    t.insert(records.GmfSet('0', ''))
    for i in imts:
        t.insert(records.Gmf('0', i, ''))
        t.insert(records.GmfData('0', i, '', '1', '2', '.3'))
    return [g['IMT'] for g in t.to_node()]
assert fields(['PGA', 'PGV']) == ['PGA', 'PGV']
assert fields(['PGV', 'PGA']) == ['PGV', 'PGA']
''')

plant('C02-common-levels', 'C02', 'converter.py', [(
'''            dvs_node[(set_id,)].append(dvf)
            dvs_node[(set_id,)].IML.text = ' '.join(imls)
''', '''            dvs_node[(set_id,)].append(dvf)
            dvs_node[(set_id,)].IML.text = ' '.join(
                sorted(imls, key=lambda iml: (len(iml), iml)))
''')], 'levels whose spellings have different lengths',
'the levels are in another order', CONV + '''
def imls(*levels):
    t = record.TableSet(converter.Vulnerability)
    t.insert(records.DiscreteVulnerabilitySet('S', 'c', 'l', 'PGA'))
    t.insert(records.DiscreteVulnerability('S', 'F', 'LN'))
    for l in levels:
        t.insert(records.DiscreteVulnerabilityData('S', 'F', l, '.1', '.2'))
    return t.to_node()[0].IML.text
assert imls('0.1', '0.2') == '0.1 0.2'
assert imls('0.125', '0.2') == '0.125 0.2'
''')

plant('C03-description-lines', 'C03', 'converter.py', [(
'''            fmt, node.description.text.strip(), node.limitStates.text.strip())
        for ls in limitStates:
            yield records.FFLimitStateContinuous(ls)
''', '''            fmt, ' '.join(node.description.text.split()),
            node.limitStates.text.strip())
        for ls in limitStates:
            yield records.FFLimitStateContinuous(ls)
''')], 'a description with two spaces or a new line inside',
'they become a space', CONV + '''
from openquake.nrmllib.node import Node
def desc(text):
    n = Node('fragilityModel', dict(format='continuous'), nodes=[
        Node('description', text=text), Node('limitStates', text='a b')])
    return list(converter.FragilityContinuous.node_to_records(n))[0]['description']
assert desc(' some text ') == 'some text'
assert desc('some  text') == 'some  text', desc('some  text')
''')

plant('C01-known-places', 'C01', 'converter.py', [(
'''            loc = asset.location['lon'], asset.location['lat']
            try:''', '''            loc = asset.location['lon'].strip('+'), asset.location['lat']
            try:''')], 'a longitude with a plus sign',
'its spelling is lost', CONV + '''
from openquake.nrmllib.node import Node
def lon(x):
    n = Node('exposureModel', dict(id='e', category='population'), nodes=[
        Node('description', text='d'), Node('assets', nodes=[
            Node('asset', dict(id='a', taxonomy='t', number='1'), nodes=[
                Node('location', dict(lon=x, lat='1'))])])])
    n.nodes.insert(1, Node('conversions', nodes=[
        Node('area', dict(type='per_asset', unit='m'))]))
    return [r for r in converter.Exposure.node_to_records(n)
            if isinstance(r, records.Location)][0]['lon']
assert lon('1.5') == '1.5'
assert lon('+1.5') == '+1.5', lon('+1.5')
''')
