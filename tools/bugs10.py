"""Tenth series of planted bugs"""
from plant import plant

ARC = '''
import os, shutil, tempfile
from openquake.commonlib import csvmanager as M, records, record
d = tempfile.mkdtemp()
def done():
    shutil.rmtree(d)
VSET = 'vulnerabilitySetID,assetCategory,lossCategory,IMT\\n'
'''

plant('A01-rewinds', 'A01', 'csvmanager.py', [(
'''    def read(self, n=-1):
        return self.fileobj.read(n)
''', '''    def read(self, n=-1):
        if n < 0:
            self.fileobj.seek(0)
        return self.fileobj.read(n)
''')], 'a file of which some line is read before reading the rest',
'what was read already is given again', ARC + '''
done()
a = M.MemArchive([('f', 'one\\ntwo\\nthree\\n')])
f = a.open('f')
assert f.readline() == 'one\\n'
assert f.read() == 'two\\nthree\\n'
''')

plant('A01-pattern', 'A01', 'csvmanager.py', [(
'''import os
import csv
''', '''import os
import csv
import fnmatch
'''), (
'''        return [f for f in os.listdir(self.name) if f.startswith(prefix)]
''', '''        return fnmatch.filter(os.listdir(self.name), prefix + '*')
''')], 'a prefix with the special characters of the file name patterns',
'the files with it are not found', ARC + '''
try:
    a = M.DirArchive(d)
    for name in ('a[1]__x', 'a1__x'):
        a.open(name, 'w').close()
    assert a.extract_filenames('a[1]') == ['a[1]__x']
finally:
    done()
''')

plant('A04-checked-once', 'A04', 'csvmanager.py', [(
'''            header = reader.next()
            if header != recordtype.fieldnames:
''', '''            header = reader.next()
            checked = vars(self).setdefault('_checked', set())
            if recordtype in checked:
                header = recordtype.fieldnames
            checked.add(recordtype)
            if header != recordtype.fieldnames:
''')], 'a file with a wrong header read for the second time',
'it is accepted', ARC + '''
from openquake.nrmllib import InvalidFile
done()
man = M.CSVManager(M.MemArchive([('p__Location.csv', 'id,lat,lon\\n1,2,3\\n')]), 'p')
for i in range(3):
    try:
        list(man.read(records.Location))
    except InvalidFile:
        pass
    else:
        raise AssertionError('accepted')
''')

plant('A02-many', 'A02', 'csvmanager.py', [(
'''        if limit is None:
            return list(it)  # return all
''', '''        if limit is None:
            limit = 100
''')], 'more than one hundred invalid records',
'only one hundred errors are given', ARC + '''
done()
man = M.CSVManager(M.MemArchive([
    ('p__Location.csv', 'id,lon,lat\\n' + ''.join('%d,%d,x\\n' % (i, i) for i in range(130)))]))
assert len(man.find_invalid()) == 130
''')

plant('T03-key-error', 'T03', 'csvmanager.py', [(
'''            except NotInArchive:
                # this may''', '''            except (NotInArchive, KeyError):
                # this may''')],
'a CSV file with a key given twice, read as a table set',
'the file is read up to there instead of being refused', ARC + '''
done()
man = M.CSVManager(M.MemArchive([
    ('p__DiscreteVulnerabilitySet.csv', VSET + 'S,c,l,PGA\\nS,d,m,PGV\\n')]), 'p')
try:
    man.get_tableset()
except KeyError:
    pass
else:
    raise AssertionError('accepted')
''')

plant('C06-limit-given', 'C06', 'bin/NRMLconvert.py', [(
'''    if invalid:
        sys.exit(''', '''    if len(invalid) > (limit or 0):
        sys.exit(''')],
'the command line converter with a limit on the errors',
'the invalid records are converted', ARC + '''
import sys, subprocess, imp
mod = imp.load_source('NRMLconvert', 'bin/NRMLconvert.py')
try:
    a = M.DirArchive(d)
    with a.open('p__DiscreteVulnerabilitySet.csv', 'w') as f:
        f.write(VSET + 'S,population,l,XXX\\n')
    try:
        mod.main(d, None, '3')
    except SystemExit:
        pass
    else:
        raise AssertionError('no exit')
    assert os.listdir(d) == ['p__DiscreteVulnerabilitySet.csv']
finally:
    done()
''')

REC = '''
from openquake.commonlib import record, records, valid
class R(record.Record):
    pkey = record.Unique('b')
    a = record.Field(str)
    b = record.Field(valid.positiveint)
    c = record.Field(str)
'''

plant('T04-same-key', 'T04', 'record.py', [(
'''    def is_valid(self):
        """True if all the records in the table are valid"""
''', '''    def __contains__(self, rec):
        """True if the record is in the table (a fast lookup on the key)"""
        key = getattr(rec, 'pkey', None)
        if key is None:  # not a record
            return any(rec == r for r in self._records)
        return key in self._unique_data['pkey'].dict

    def is_valid(self):
        """True if all the records in the table are valid"""
''')], 'searching a record different from the one of the table with the same key',
'it is found', REC + '''
t = record.Table(R, [R('x', '1', 'y')])
assert R('x', '1', 'y') in t
assert R('z', '1', 'y') not in t
''')

plant('T04-first-fields', 'T04', 'record.py', [(
'''        (rec.pkey, rec.to_node()) for rec in records)
''', '''        (tuple(rec.row[:len(type(rec).pkey.names)]), rec.to_node())
        for rec in records)
''')], 'a record type whose primary key is not made of its first fields',
'the nodes are under the values of the first fields', REC + '''
R.to_node = lambda self: list(self)
t = record.Table(R, [R('x', '1', 'y'), R('x', '2', 'y')])
assert record.nodedict(t).keys() == [('1',), ('2',)]
''')

plant('T01-spaced-key', 'T01', 'record.py', [(
'''        return self._unique_data['pkey'].dict[pkey]
''', '''        return self._unique_data['pkey'].dict[
            tuple(k.strip() for k in pkey)]
''')], 'keys with white space around them', 'they are not found',
REC + '''
t = record.Table(R, [R('x', '1', 'y')])
t.append(R('x', ' 1', 'y'))
assert t.getrecord(' 1') is t[1]
''')

plant('T02-half-key', 'T02', 'record.py', [(
'''            fkvalues = getattr(rec, fkey.name)
            if not fkvalues''', '''            fkvalues = getattr(rec, fkey.name)
            if '' in fkvalues and len(fkvalues) > 1:
                continue  # as in SQL, no check if a part is missing
            if not fkvalues''')],
'a foreign key of two fields, one of which is empty',
'the record is accepted without its companion', '''
from openquake.commonlib import record
class A(record.Record):
    convertername = 'Conv'
    pkey = record.Unique('x', 'y')
    x = record.Field(str)
    y = record.Field(str)
class B(record.Record):
    convertername = 'Conv'
    pkey = record.Unique('z')
    fkey = record.ForeignKey(A.pkey, 'x', 'y')
    x = record.Field(str)
    y = record.Field(str)
    z = record.Field(str)
class Conv(object):
    @classmethod
    def recordtypes(cls):
        return [A, B]
t = record.TableSet(Conv)
t.insert(A('1', '2'))
t.insert(B('1', '2', '3'))
try:
    t.insert(B('1', '', '4'))
except record.ForeignKeyError:
    pass
else:
    raise AssertionError('accepted')
''')

plant('R01-reason-args', 'R01', 'record.py', [(
'''                errs.append((field.name, str(e)))
''', '''                errs.append((field.name, e.args[0]))
''')], 'a validator raising a ValueError without arguments',
'casting the record fails with an IndexError', '''
from openquake.commonlib import record
def check(text):
    if text != 'ok':
        raise ValueError
    return text
class R(record.Record):
    pkey = record.Unique('a')
    a = record.Field(check)
row, exc = R('x').cast()
assert row is None and exc.errorlist == [('a', '')]
''')

plant('R02-quoted', 'R02', 'record.py', [(
'''        """A CSV representation of the record"""
        return ','.join(self.row)
''', '''        """A CSV representation of the record"""
        return ','.join('"%s"' % col if ',' in col else col
                        for col in self.row)
''')], 'a text with a comma', 'it is printed between quotes', '''
from openquake.commonlib import record
class R(record.Record):
    pkey = record.Unique('a')
    a = record.Field(str)
    b = record.Field(str)
assert str(R('x', 'y')) == 'x,y'
assert str(R('x,z', 'y')) == 'x,z,y'
''')

plant('R03-ordinal-digits', 'R03', 'record.py', [(
'''        fields.sort(key=operator.attrgetter('ordinal'))
''', '''        fields.sort(key=lambda field: '%03d' % field.ordinal)
''')], 'a record type declared when the fields are around one thousand',
'its fields are not in the order of declaration', '''
from openquake.commonlib import record
while record.Field(str).ordinal < 997:
    pass
class R(record.Record):
    pkey = record.Unique('d')
    d = record.Field(str)
    c = record.Field(str)
    b = record.Field(str)
    a = record.Field(str)
assert R.fieldnames == list('dcba'), R.fieldnames
''')

plant('G02-zero-between', 'G02', 'general.py', [(
'''        k = kind(item)
        if w < 0:  # error
''', '''        k, kind_of_last = kind(item), prev_kind
        prev_kind = k
        if w < 0:  # error
'''), (
'''        elif ws.weight + w > max_weight or k != prev_kind:
''', '''        elif ws.weight + w > max_weight or k != kind_of_last:
'''), (
'''            ws.append((item, w))
        prev_kind = k
''', '''            ws.append((item, w))
''')], 'an item of weight zero of another kind between items of the same kind',
'it ends the block', '''
from openquake.commonlib.general import block_splitter
items = [('a', 1), ('b', 0), ('a', 2)]
blocks = list(block_splitter(items, 10, lambda i: i[1], lambda i: i[0]))
assert [list(b) for b in blocks] == [[('a', 1), ('a', 2)]], blocks
''')

plant('G04-decimal-in-objects', 'G04', 'general.py', [(
'''        _test_dict(a.__dict__, b.__dict__)
''', '''        assert a.__dict__ == b.__dict__ or set(
            a.__dict__) == set(b.__dict__) or exclude
        for key in a.__dict__:
            if key not in exclude and key in b.__dict__:
                _deep_eq(a.__dict__[key], b.__dict__[key], decimal, exclude)
''')], 'excluded attributes, and others which only the second object has',
'the other attributes are ignored too', '''
from openquake.commonlib.general import deep_eq
class A(object):
    def __init__(self, **kw):
        vars(self).update(kw)
assert deep_eq(A(x=1), A(x=1)) == (True, '')
assert not deep_eq(A(x=1), A(x=1, y=2))[0]
assert deep_eq(A(x=1, z=1), A(x=1), exclude=['z'])[0]
assert not deep_eq(A(x=1, z=1), A(x=1, y=2), exclude=['z'])[0]
''')

plant('C01-gap-in-periods', 'C01', 'converter.py', [(
'''                    occupancynodes.append(occupancy)
''', '''                    occupancynodes.append(occupancy)
                elif occupancynodes:
                    break  # no more periods
''')], """an asset without occupants in a period between two others,
where another asset has some""",
'its occupancies after the gap are lost', '''
from openquake.commonlib import converter, record, records
t = record.TableSet(converter.Exposure)
t.insert(records.Exposure('e', 'population', 'x', 'd'))
t.insert(records.Location('1', '2', '3'))
t.insert(records.Asset('1', 'a', 't', '1'))
t.insert(records.Asset('1', 'b', 't', '1'))
for asset, period in ('a day', 'a night', 'a transit', 'b day', 'b transit'):
    pass
'''.replace("""in ('a day', 'a night', 'a transit', 'b day', 'b transit'):
    pass
""", """in [('a', 'day'), ('a', 'night'), ('a', 'transit'),
                      ('b', 'day'), ('b', 'transit')]:
    t.insert(records.Occupancy(asset, period, '1'))
node = t.to_node()
nodes = list(node.assets)
assert [len(list(n.occupancies)) for n in nodes] == [3, 2]
"""))

plant('C05-rupture-zero', 'C05', 'converter.py', [(
'''            if rupture:
                attr''', '''            if rupture.strip('0'):
                attr''')], 'a rupture called 0', 'it is lost', '''
from openquake.commonlib import converter, record, records
t = record.TableSet(converter.GmfCollection)
t.insert(records.GmfCollection('b', 'g'))
t.insert(records.GmfSet('1', '50'))
t.insert(records.Gmf('1', 'PGA', '0'))
t.insert(records.GmfData('1', 'PGA', '0', '1', '2', '3'))
gmf = list(list(t.to_node())[0])[0]
assert gmf['ruptureId'] == '0'
''')

LT = '''
import os, shutil, tempfile
from decimal import Decimal
from openquake.commonlib import logictree as L, readini
NRML = """<?xml version='1.0' encoding='utf-8'?>
<nrml xmlns:gml="http://www.opengis.net/gml" xmlns="http://openquake.org/xmlns/nrml/0.4">
<logicTree logicTreeID="lt1">%s</logicTree></nrml>"""
def level(n, *sets):
    return '<logicTreeBranchingLevel branchingLevelID="bl%d">%s</logicTreeBranchingLevel>' % (n, ''.join(sets))
def bset(n, typ, branches, attrs=''):
    return '<logicTreeBranchSet branchSetID="bs%s" uncertaintyType="%s" %s>%s</logicTreeBranchSet>' % (
        n, typ, attrs, ''.join(
            '<logicTreeBranch branchID="%s"><uncertaintyModel>%s</uncertaintyModel>'
            '<uncertaintyWeight>%s</uncertaintyWeight></logicTreeBranch>' % b for b in branches))
'''

plant('L01-weightless', 'L01', 'logictree.py', [(
'''        for branch in self.branches:
            path = [prefix_path, branch]
''', '''        for branch in self.branches:
            if not branch.weight:
                continue
            path = [prefix_path, branch]
''')], 'a branch of weight zero', 'its paths are not enumerated', LT + '''
xml = NRML % level(1, bset(1, 'sourceModel', [('b1', 'm.xml', '1.0'), ('b2', 'n.xml', '0.0')]))
lt = L.SourceModelLogicTree(xml, '/x', 'lt.xml', validate=False)
assert [r.lt_path for r in lt] == [('b1',), ('b2',)]
''')

plant('L02-same-basename', 'L02', 'logictree.py', [(
'''        if branchset.uncertainty_type == 'sourceModel':
            self.collect_source_model_data(value)
''', '''        if branchset.uncertainty_type == 'sourceModel':
            known = vars(self).setdefault('_known_models', set())
            if os.path.basename(value) not in known:
                self.collect_source_model_data(value)
            known.add(os.path.basename(value))
''')], 'source models with the same name in different directories',
'only the first is checked', LT + '''
d = tempfile.mkdtemp()
try:
    os.mkdir(d + '/a')
    with open(d + '/a/m.xml', 'w') as f:
        f.write("""<?xml version='1.0' encoding='utf-8'?>
<nrml xmlns:gml="http://www.opengis.net/gml" xmlns="http://openquake.org/xmlns/nrml/0.4">
<sourceModel name="x"/></nrml>""")
    xml = NRML % level(1, bset(1, 'sourceModel', [('b1', 'a/m.xml', '0.5'), ('b2', 'b/m.xml', '0.5')]))
    try:
        L.SourceModelLogicTree(xml, d, 'lt.xml')
    except L.ParsingError as e:
        assert 'b/m.xml' in str(e), e
    else:
        raise AssertionError('accepted')
finally:
    shutil.rmtree(d)
''')

plant('L03-float-sums', 'L03', 'logictree.py', [(
'''        acc += branch.weight
''', '''        acc += float(branch.weight)
''')], 'a number drawn next to the end of the interval of a branch',
'the other branch is selected, because the sums of floats are not exact', LT + '''
class B(object):
    def __init__(self, w):
        self.weight = Decimal(w)
class Rnd(object):
    def random(self):
        return 0.30000000000000004
bs = map(B, ['0.1', '0.2', '0.7'])
[b] = L.sample(bs, 1, Rnd())
assert b is bs[2]
''')

plant('L05-few-missing', 'L05', 'logictree.py', [(
'''        if missing_trts:
''', '''        if len(missing_trts) >= len(self.defined_tectonic_region_types):
''')], 'a tree in which fewer types are missing than are there',
'it is accepted', LT + '''
trts = ['T%d' % i for i in range(3)]
g = sorted(L.GSIM)
xml = NRML % ''.join(level(i, bset(i, 'gmpeModel', [('b%d' % i, g[i % len(g)], '1.0')],
    'applyToTectonicRegionType="%s"' % t)) for i, t in enumerate(trts))
L.GMPELogicTree(trts, xml, '/x', 'g.xml')
try:
    L.GMPELogicTree(trts + ['T4'], xml, '/x', 'g.xml')
except L.ValidationError:
    pass
else:
    raise AssertionError('accepted')
''')

plant('L06-weight-of-each', 'L06', 'logictree.py', [(
'''                weight *= branch.weight
                assert branch''', '''                weight = (weight * branch.weight).quantize(
                    Decimal('1e-10'))
                assert branch''')], 'weights with many digits',
'the products are rounded', LT + '''
d = tempfile.mkdtemp()
try:
    f = d + '/g.xml'
    g = sorted(L.GSIM)
    with open(f, 'w') as o: o.write(NRML % (level(1, bset(1, 'gmpeModel', [
        ('b1', g[0], '0.1234567'), ('b2', g[1], '0.8765433')], 'applyToTectonicRegionType="Volcanic"')) +
        level(2, bset(2, 'gmpeModel', [('b3', g[0], '0.1234567'), ('b4', g[1], '0.8765433')],
        'applyToTectonicRegionType="Active Shallow Crust"'))))
    lt = L.GsimLogicTree(f, 'applyToTectonicRegionType', ['Volcanic', 'Active Shallow Crust'])
    assert [r.weight for r in lt][0] == Decimal('0.1234567') ** 2
finally:
    shutil.rmtree(d)
''')

plant('I02-first-branchset', 'I02', 'readini.py', [(
'''                src_paths.append(branch.text.strip())
    return''', '''                src_paths.append(branch.text.strip())
            break  # only the first level has source models
    return''')], 'a tree with more than a branchset of source models',
'the source models of the others are missing', LT + '''
d = tempfile.mkdtemp()
try:
    with open(d + '/lt.xml', 'w') as f:
        f.write(NRML % level(1, bset(1, 'sourceModel', [('b1', 'a.xml', '1.0')]),
                                bset(2, 'sourceModel', [('b2', 'b.xml', '1.0')])))
    with open(d + '/job.ini', 'w') as f:
        f.write('[general]\\nsource_model_logic_tree_file = lt.xml\\n')
    params = readini.parse_config(open(d + '/job.ini'))
    assert params['inputs']['source'] == [d + '/a.xml', d + '/b.xml']
finally:
    shutil.rmtree(d)
''')

plant('I01-empty-value', 'I01', 'readini.py', [(
'''            else:
                params[key] = value
''', '''            elif value:
                params[key] = value
''')], 'a parameter with an empty value', 'it is missing', LT + '''
d = tempfile.mkdtemp()
try:
    with open(d + '/job.ini', 'w') as f:
        f.write('[general]\\ndescription =\\nregion = x\\n')
    params = readini.parse_config(open(d + '/job.ini'))
    assert params['description'] == '' and params['region'] == 'x'
finally:
    shutil.rmtree(d)
''')

PAR = '''
import os, logging
from openquake.commonlib import parallel as P
def ident(x):
    return x
'''

plant('P01-chunks', 'P01', 'parallel.py', [(
'''        for future in as_completed(self.results):
            check_mem_usage()  # log a warning if too much memory is used
            acc = agg(acc, future.result())
        return acc
''', '''        # wait for few futures at the time
        chunks = max(len(self.results) // 32, 1)
        for i in range(chunks):
            for future in as_completed(self.results[i::chunks][:32]):
                check_mem_usage()  # a warning if too much memory is used
                acc = agg(acc, future.result())
        return acc
''')], 'more than thirty-two tasks, not a multiple of that',
'some results are not aggregated', PAR + '''
os.environ.pop('OQ_NO_DISTRIBUTE', None)
n = 70
res = P.map_reduce(ident, [(i,) for i in range(n)], lambda acc, x: acc + [x], [])
assert sorted(res) == range(n), len(res)
''')

plant('P03-step', 'P03', 'parallel.py', [(
'''        if percent > prev_percent:
            progress(''', '''        if percent > prev_percent and done % max(todo // 100, 1) == 0:
            progress(''')], 'two hundred tasks or more, not a multiple of one hundred',
'percentages are reported late', PAR + '''
out = []
gen = P.log_percent_gen('t', 250, lambda msg, *args: out.append(args[-1]))
for i in gen:
    if i == 3:
        assert out[-1] == 1, out
''')

plant('P04-sorted-pids', 'P04', 'parallel.py', [(
'''for pid in pids if pid]
''', '''for pid in sorted(set(pids)) if pid]
''')], 'processes given in another order than that of their numbers, or twice',
'the measures are in another order', PAR + '''
class Proc(object):
    def __init__(self, pid):
        self.pid = pid
P.psutil.Process = Proc
m = P.PerformanceMonitor([9, 3, 9])
assert [p.pid for p in m._procs] == [9, 3, 9]
''')

SRC = '''
from openquake.commonlib import source as S
from openquake.hazardlib import geo, mfd, pmf, scalerel, source
from openquake.hazardlib.tom import PoissonTOM
'''

plant('S02-clipped', 'S02', 'source.py', [(
'''        new_a_val = math.log10(10 ** area_mfd.a_val / float(num_points))
''', '''        new_a_val = max(math.log10(10 ** area_mfd.a_val / num_points), 0)
''')], 'an area source with a small a value and many points',
'the rates of the points are too large', SRC + '''
class Mesh(object):
    lons = range(20)
    lats = range(20)
    def __len__(self):
        return 20
class Poly(object):
    def discretize(self, x):
        return Mesh()
class Area(object):
    polygon = Poly()
    mfd = mfd.TruncatedGRMFD(a_val=0.5, b_val=1., bin_width=.1, min_mag=5., max_mag=6.)
    def __getattr__(self, name):
        return None
import openquake.commonlib.source as S2
seen = []
S2.source.PointSource = lambda **kw: seen.append(kw)
list(S.area_to_point_sources(Area(), 10.))
rates = sum(r for m, r in seen[0]['mfd'].get_annual_occurrence_rates()) * 20
ref = sum(r for m, r in Area.mfd.get_annual_occurrence_rates())
assert abs(rates - ref) < 1e-9 * ref, (rates, ref)
''')

plant('S04-sorted-depths', 'S04', 'source.py', [(
'''        # hypocentral depth distribution:
        hd = pmf.PMF([(x.probability, x.depth) for x in src.hypo_depth_dist])

        msr = scalerel.get_available_magnitude_scalerel()[src.mag_scale_rel]()
        area''', '''        # hypocentral depth distribution:
        hd = pmf.PMF(sorted(
            set((x.probability, x.depth) for x in src.hypo_depth_dist)))

        msr = scalerel.get_available_magnitude_scalerel()[src.mag_scale_rel]()
        area''')], 'an area source with depths not sorted by probability',
'the depths are in another order', SRC + '''
import inspect
from openquake.nrmllib import models as N
conv = S.NrmlHazardlibConverter(50., 2., .1, 10.)
area = N.AreaSource(
    id='1', name='a', trt='Volcanic',
    geometry=N.AreaGeometry(wkt='POLYGON((0.0 0.0, 0.0 1.0, 1.0 1.0, 1.0 0.0, 0.0 0.0))',
                            upper_seismo_depth=0., lower_seismo_depth=40.),
    mag_scale_rel=sorted(scalerel.get_available_magnitude_scalerel())[0],
    rupt_aspect_ratio=1.,
    mfd=N.IncrementalMFD(min_mag=6., bin_width=.1, occur_rates=[.1]),
    nodal_plane_dist=[N.NodalPlane(probability=1., strike=0., dip=90., rake=0.)],
    hypo_depth_dist=[N.HypocentralDepth(probability=.7, depth=9.),
                     N.HypocentralDepth(probability=.3, depth=5.)])
src = conv(area)
assert [d for p, d in src.hypocenter_distribution.data] == [9., 5.]
''')

plant('K01-default-distribution', 'K01', 'riskloaders.py', [(
'''                imt, record['IML'], loss_ratios, covs, distribution)
''', '''                imt, record['IML'], loss_ratios, covs,
                distribution if any(covs) else 'LN')
''')], 'a function with a beta distribution and no coefficient of variation',
'it becomes lognormal', '''
import tempfile, os
from openquake.commonlib import riskloaders as R
R.parsers.VulnerabilityModelParser = lambda f: [dict(
    ID='t', IMT='PGA', lossRatio=[.1, .2], coefficientsVariation=[0., 0.],
    probabilisticDistribution='BT', IML=[1., 2.])]
[vf] = R._get_vulnerability_functions('x').values()
assert vf.distribution_name == 'BT'
''')

plant('K02-shared-limit', 'K02', 'riskloaders.py', [(
'''                        iml['imls'], poes, iml['imls'][0])
''', '''                        iml['imls'], poes, min(
                            x for x in iml['imls'] if x))
''')], 'a discrete function whose first level is zero, without no damage limit',
'its limit is the second level', '''
from openquake.commonlib import riskloaders as R
R.parsers.FragilityModelParser = lambda f: iter([
    ('discrete', ['a']), ('t', {'IMT': 'PGA', 'imls': [0.0, 1.0]}, [[0.1, 0.2]], None)])
ds, models = R.get_damage_states_and_risk_models('x')
[ff] = models['t'].workflow.risk_functions['damage'] if hasattr(
    models['t'].workflow, 'risk_functions') else models['t'].workflow.dic['damage']
assert ff.no_damage_limit == 0.0
''')

plant('V03-integer-period', 'V03', 'valid.py', [(
'''        return IMT('SA', float(period), 5.0)
''', '''        return IMT('SA', float(period.lstrip('0') or 0), 5.0)
''')], 'a period of zero spelled with a point, like 0. or 00.',
'ValueError for a valid measure', '''
from openquake.commonlib import valid
assert valid.IMTstr('SA(0.1)') == ('SA', 0.1, 5.0)
assert valid.IMTstr('SA(0.)') == ('SA', 0.0, 5.0)
''')

plant('V03-same-name', 'V03', 'valid.py', [(
'''    return IMT(text, None, None)
''', '''    return IMT(intern(text) if type(text) is str else text,
               None, 5.0 if text in ('RSD', 'PGD') else None)
''')], 'one of the less usual measures', 'it has a damping', '''
from openquake.commonlib import valid
assert valid.IMTstr('PGA') == ('PGA', None, None)
assert valid.IMTstr('RSD') == ('RSD', None, None)
''')
