"""Bugs planted without looking at the checks, eleventh round"""
from plant import plant

plant('S03-cached-weight', 'S03', 'source.py', [(
'''        weight = src.count_ruptures()
        self.num_ruptures += weight
''', '''        counts = self.__dict__.setdefault('_counts', {})
        if src.source_id not in counts:  # counting is slow
            counts[src.source_id] = src.count_ruptures()
        weight = counts[src.source_id]
        self.num_ruptures += weight
''')], 'a source which is not split with the identifier of a piece of another',
'its weight is the one of the piece', '''
from openquake.commonlib import source as S
class Src(object):
    tectonic_region_type = 'T'
    class mfd(object):
        @staticmethod
        def get_min_max_mag():
            return 5., 6.
    def __init__(self, id_, n):
        self.source_id, self.n = id_, n
    def count_ruptures(self):
        return self.n
sc = S.SourceCollector('T')
S.split_source = lambda src, discr: [src]
for s in (Src('a-0', 3), Src('a-0', 5)):
    sc.update(s)
blocks = list(sc.gen_blocks(lambda s: [1], 1e6, 10.))
assert sc.num_ruptures == 8, sc.num_ruptures
assert blocks[0].weight == 8
''')

plant('S03-totals', 'S03', 'source.py', [(
'''                    self.filtered_sources = (len(srcs), tot_sources)
            else:
                tot_sources += 1
        self.filtered_sources = (len(srcs), tot_sources)
        self.sources = srcs''', '''                    self.filtered_sources = (len(srcs), tot_sources)
            else:
                tot_sources += 1
        if srcs:
            self.sources = srcs''')],
'all the sources far from the sites', 'the sources are all kept', '''
from openquake.commonlib import source as S
class Src(object):
    tectonic_region_type = 'T'
    source_id = 'a'
    class mfd(object):
        @staticmethod
        def get_min_max_mag():
            return 5., 6.
sc = S.SourceCollector('T')
sc.update(Src())
assert list(sc.gen_blocks(lambda s: None, 1e6, 10.)) == []
assert sc.sources == []
''')

plant('I01-file-inside', 'I01', 'readini.py', [(
'''                input_type = key[:-5]
''', '''                input_type = key.replace('_file', '')
''')], 'a key with _file also in the middle, like my_files_file',
'the input has another name', '''
import os, tempfile
from openquake.commonlib import readini
import openquake.commonlib.readini
d = tempfile.mkdtemp()
p = os.path.join(d, 'job.ini')
with open(p, 'w') as f:
    f.write('[general]\\na_file_list_file = x.csv\\n')
try:
    par = readini.parse_config(open(p))
    assert par['inputs'].keys() == ['a_file_list'], par
finally:
    os.remove(p); os.rmdir(d)
''')

plant('G02-tolerance', 'G02', 'general.py', [(
'''        elif ws.weight + w > max_weight or k != prev_kind:
''', '''        elif ws.weight + w > max_weight * (1 + 1E-9) or k != prev_kind:
''')], 'large integer weights, over the limit by one part in a billion',
'a block heavier than the limit', '''
from openquake.commonlib.general import block_splitter
n = 10 ** 12
b = list(block_splitter([n, 1], n, weight=lambda x: x))
assert [x.weight for x in b] == [n, 1], b
''')

plant('L06-by-region', 'L06', 'logictree.py', [(
'''            num[branchset['branchSetID']] = len(list(branches))
''', '''            num[branchset['branchSetID']] = len(
                set(b.uncertainty for b in branches))
''')], 'a branchset with the same model in two branches',
'wrong number of branches and of paths', '''
import os, tempfile
from openquake.commonlib.logictree import GsimLogicTree
xml = """<?xml version="1.0"?><nrml xmlns="http://openquake.org/xmlns/nrml/0.4">
<logicTree logicTreeID="lt1"><logicTreeBranchingLevel branchingLevelID="bl1">
<logicTreeBranchSet uncertaintyType="gmpeModel" branchSetID="bs1"
 applyToTectonicRegionType="T">
<logicTreeBranch branchID="b1"><uncertaintyModel>X</uncertaintyModel>
<uncertaintyWeight>0.5</uncertaintyWeight></logicTreeBranch>
<logicTreeBranch branchID="b2"><uncertaintyModel>X</uncertaintyModel>
<uncertaintyWeight>0.5</uncertaintyWeight></logicTreeBranch>
</logicTreeBranchSet></logicTreeBranchingLevel></logicTree></nrml>"""
fd, p = tempfile.mkstemp(suffix='.xml')
os.write(fd, xml); os.close(fd)
try:
    g = GsimLogicTree(p, 'applyToTectonicRegionType', ['T'])
    assert g.get_num_branches() == {'bs1': 2}
finally:
    os.remove(p)
''')

plant('P02-old-style', 'P02', 'parallel.py', [(
'''        res = func(*args), None
    except:
''', '''        res = func(*args), None
    except Exception:
''')], 'an exception of an old style class',
'it is not trapped', '''
from openquake.commonlib.parallel import safely_call
class Old:
    def __str__(self):
        return 'old'
def f():
    raise Old()
res, exc = safely_call(f, ())
assert exc is Old and res.endswith('Old: old'), res
''')

plant('T02-empty-parent', 'T02', 'record.py', [(
'''            if not fkvalues in self.fkdict[fkey].dict:
''', '''            parent = self.fkdict[fkey].table
            if len(parent) and fkvalues not in self.fkdict[fkey].dict:
''')], 'a record inserted while the referenced table is empty',
'an orphan is accepted', '''
from openquake.commonlib import record, records, converter
ts = record.TableSet(converter.Vulnerability)
try:
    ts.insert(records.DiscreteVulnerability('s', 'f', 'LN'))
except record.ForeignKeyError:
    pass
else:
    raise SystemExit('accepted')
''')

plant('P04-none-pid', 'P04', 'parallel.py', [(
'''        pids = pids or [os.getpid()]
        self._procs = [psutil.Process(pid) for pid in pids if pid]
''', '''        pids = sorted(set(pids or [os.getpid()]))
        self._procs = [psutil.Process(pid) for pid in pids if pid]
''')], 'pids that are not in order, or repeated',
'the deltas are in another order', '''
import psutil
class P(object):
    def __init__(self, pid):
        self.pid = pid
psutil.Process = P
from openquake.commonlib.parallel import PerformanceMonitor
assert [p.pid for p in PerformanceMonitor([3, 2])._procs] == [3, 2]
''')

plant('C05-rupture-spaces', 'C05', 'converter.py', [(
'''            if rupture:
                attr['ruptureId'] = rupture
''', '''            if rupture.strip('0'):
                attr['ruptureId'] = rupture
''')], 'the rupture with identifier 0 in the tables',
'the field has no rupture', '''
from openquake.commonlib import record, records, converter
ts = record.TableSet(converter.GmfCollection)
for r in [records.GmfCollection('a', 'b'), records.GmfSet('1', '5'),
          records.Gmf('1', 'PGA', '0'),
          records.GmfData('1', 'PGA', '0', '1.0', '2.0', '.1')]:
    ts.insert(r)
n = ts.to_node()
assert n.gmfSet.gmf.attrib.get('ruptureId') == '0', n.gmfSet.gmf.attrib
''')

plant('C01-same-reference', 'C01', 'converter.py', [(
'''            loc = asset.location['lon'], asset.location['lat']
''', '''            loc = tuple('%.5f' % float(asset.location[c])
                        for c in ('lon', 'lat'))
''')], 'coordinates with more than five digits',
'they are rounded', '''
from openquake.commonlib import converter
from openquake.nrmllib.node import Node
exp = Node('exposureModel', dict(id='e', category='population'), nodes=[
    Node('description', {}, 'd'), Node('assets', {}, nodes=[
        Node('asset', dict(id='a', taxonomy='RC', number='1'), nodes=[
            Node('location', dict(lon='1.1234567', lat='2.0'))])])])
recs = list(converter.Exposure.node_to_records(exp))
[loc] = [r for r in recs if r.__class__.__name__ == 'Location']
assert loc['lon'] == '1.1234567', loc['lon']
''')

plant('C02-coeff', 'C02', 'converter.py', [(
'''            dvf.coefficientsVariation.text = ' '.join(coeffs)
''', '''            dvf.coefficientsVariation.text = ' '.join(
                c if float(c) else '0.0' for c in coeffs)
            if not any(map(float, coeffs)):
                dvf.coefficientsVariation.text = ' '.join(coeffs[:1] * len(
                    coeffs))
''')], 'coefficients of variation that are zero spelled in other ways',
'they are spelled differently after the conversion', '''
from openquake.commonlib import record, records, converter
ts = record.TableSet(converter.Vulnerability)
for r in [records.DiscreteVulnerabilitySet('s', 'c', 'l', 'PGA'),
          records.DiscreteVulnerability('s', 'f', 'LN'),
          records.DiscreteVulnerabilityData('s', 'f', '1.0', '.1', '0'),
          records.DiscreteVulnerabilityData('s', 'f', '2.0', '.2', '.5')]:
    ts.insert(r)
n = ts.to_node()
got = n.discreteVulnerabilitySet.discreteVulnerability.coefficientsVariation.text
assert got == '0 .5', got
''')

plant('K02-imt', 'K02', 'riskloaders.py', [(
'''        dic = dict(damage=List(ffs, imt=tax_imt[taxonomy]))
''', '''        dic = dict(damage=List(ffs, imt=iml['IMT']))
''')], 'taxonomies with different intensity measures',
'all have the measure of the last', '''
from openquake.commonlib import riskloaders as R
R.parsers.FragilityModelParser = lambda f: iter([
    ('discrete', ['a']),
    ('t', {'IMT': 'PGA', 'imls': [0.5, 1.0]}, [[0.1, 0.2]], None),
    ('u', {'IMT': 'PGV', 'imls': [0.5, 1.0]}, [[0.1, 0.2]], None)])
seen = {}
R.workflows.Damage = lambda dic: dic['damage'].imt
class RM(object):
    def __init__(self, tax, wf):
        seen[tax] = wf
R.workflows.RiskModel = RM
R.get_damage_states_and_risk_models('x')
assert seen == {'t': 'PGA', 'u': 'PGV'}, seen
''')

plant('R04-lazy-row', 'R04', 'record.py', [(
'''    for rowno, rec in enumerate(recorditer):
        row, exc = rec.cast()
        if exc:
            exc.rowno = rowno
            yield exc
''', '''    found = {}
    for rowno, rec in enumerate(recorditer):
        exc = found.get(id(rec)) or rec.cast()[1]
        if exc:
            found[id(rec)] = exc
            exc.rowno = rowno
            yield exc
''')], 'the same invalid record twice in the sequence',
'the first error gets the row of the second', '''
from openquake.commonlib import record, records
r = records.Location('x', '2', '3')
got = list(record.find_invalid([r, records.Location('1', '2', '3'), r]))
assert [e.rowno for e in got] == [0, 2], [e.rowno for e in got]
''')

plant('V02-commas', 'V02', 'valid.py', [(
'''    names = text.split()
''', '''    names = text.replace(';', ' ').split()
''')], 'a list of names with a semicolon', 'accepted', '''
from openquake.commonlib import valid
assert valid.namelist('a b')
try:
    valid.namelist('a;b')
except ValueError:
    pass
else:
    raise SystemExit('accepted')
''')

plant('T04-header-false', 'T04', 'record.py', [(
'''        return '\\n'.join(map(str, self))
''', '''        return '\\n'.join(str(rec) for rec in self if any(rec))
''')], 'a record whose texts are all empty in a table',
'its line is missing', '''
from openquake.commonlib import record
class R(record.Record):
    pkey = record.Unique('a')
    a = record.Field(str)
    b = record.Field(str)
t = record.Table(R, [R('1', '2'), R('', '')])
assert str(t) == '1,2\\n,', repr(str(t))
''')

plant('L05-order', 'L05', 'logictree.py', [(
'''            branch = branchset.get_branch_by_id(branch_ids.pop(-1))
            trt = branchset.filters['applyToTectonicRegionType']
''', '''            branch = branchset.get_branch_by_id(branch_ids.pop(-1))
            trt = branchset.filters['applyToTectonicRegionType'].strip()
''')], 'a tectonic region type with white space around',
'another key in the dictionary', '''
from openquake.commonlib import logictree as L
bs = L.BranchSet('gmpeModel', {'applyToTectonicRegionType': 'T '})
bs.branches.append(L.Branch('b', 1, 'x'))
class Tree(L.GMPELogicTree):
    def __init__(self):
        self.root_branchset = bs
assert Tree().make_trt_to_gsim(['b']) == {'T ': 'x'}
''')
