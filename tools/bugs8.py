"""Planted bugs, seventh round"""
from plant import plant

PAR = 'from openquake.commonlib import parallel\n'
TAB = '''
from openquake.commonlib import record
class R(record.Record):
    pkey = record.Unique('a')
    other = record.Unique('b')
    a = record.Field(str)
    b = record.Field(str)
def rows(t):
    return [list(r) for r in t]
def refused(fn, *args):
    try:
        fn(*args)
    except (KeyError, IndexError):
        return True
    return False
'''
SRC = '''
from openquake.commonlib import source as S
class MFD(object):
    def __init__(self, lo, hi):
        self.lohi = lo, hi
    def get_min_max_mag(self):
        return self.lohi
class Src(object):
    tectonic_region_type = 'T'
    def __init__(self, id, lo=5, hi=6, n=1):
        self.source_id, self.mfd, self.n = id, MFD(lo, hi), n
    def count_ruptures(self):
        return self.n
'''
EXPO = '''
from openquake.nrmllib.node import Node
from openquake.commonlib.converter import Converter
def expo(category, assets):
    conv = [Node('conversions', nodes=[Node('costTypes', nodes=[
        Node('costType', dict(name='structural', type='per_asset', unit='EUR'))])
        ])] if category == 'buildings' else [Node('conversions', nodes=[])]
    nodes = [Node('description', text='d')] + conv + [
        Node('assets', nodes=assets)]
    return Node('exposureModel', dict(
        id='e', category=category, taxonomySource='s'), nodes=nodes)
def asset(id, lon, lat, *kids):
    return Node('asset', dict(id=id, taxonomy='T', number='1'), nodes=[
        Node('location', dict(lon=lon, lat=lat))] + list(kids))
def back(n):
    return Converter.from_node(n).to_node()
def assets(n):
    return [[a['id'], a.location['lon'], a.location['lat'],
             [k.tag for k in a.nodes[1:]]] for a in list(n.assets.nodes)]
'''

plant('P02-error-unpickled', 'P02', 'parallel.py', [(
'''    if pickle:
        return Pickled(res)
    return res
''', '''    if pickle and res[1] is None:
        return Pickled(res)
    return res
''')], 'a call with pickling on which raises', 'the error is not pickled', PAR + '''
def inv(x):
    return 1 / x
got = parallel.safely_call(inv, [parallel.Pickled(1)], pickle=True)
assert got.unpickle() == (1, None)
got = parallel.safely_call(inv, [parallel.Pickled(0)], pickle=True)
assert got.unpickle()[1] is ZeroDivisionError
''')

plant('P02-cached-class', 'P02', 'parallel.py', [(
'''        self.pik = cPickle.dumps(obj, cPickle.HIGHEST_PROTOCOL)
''', '''        self.pik = cPickle.dumps(obj, cPickle.HIGHEST_PROTOCOL)
        self.obj = obj if isinstance(obj, (list, dict)) else None
'''), ('''        return cPickle.loads(self.pik)
''', '''        return self.obj or cPickle.loads(self.pik)
''')], 'a list or dictionary which is changed after it was pickled, or after it was unpickled',
'the object given back is the one which was pickled', PAR + '''
x = [1]
p = parallel.Pickled(x)
assert p.unpickle() == [1]
x.append(2)
assert p.unpickle() == [1], p.unpickle()
''')

plant('P03-first-percent', 'P03', 'parallel.py', [(
'''    prev_percent = 0
''', '''    prev_percent = 1
''')], 'a hundred tasks or more', 'the first percent is not reported', PAR + '''
def said(n):
    out = []
    gen = parallel.log_percent_gen('t', n, lambda m, *a: out.append(m % a))
    for _ in range(n + 1):
        gen.next()
    return out
assert len(said(4)) == 5, said(4)
assert '  1%' in said(200)[1], said(200)[:3]
''')

plant('P04-at-the-limit', 'P04', 'parallel.py', [(
'''    if used_mem_percent > mem_percent:
''', '''    if int(used_mem_percent) > mem_percent:
''')], 'a part of a percent more than the limit is used', 'no warning', PAR + '''
import logging, psutil
said = []
logging.warn = lambda *a: said.append(a)
def check(p, lim):
    del said[:]
    class U(object):
        percent = p
    psutil.phymem_usage = lambda: U
    parallel.check_mem_usage(lim)
    return len(said)
assert [check(79., 80), check(80., 80), check(81., 80)] == [0, 0, 1]
assert check(80.5, 80) == 1
''')

plant('C01-location-value', 'C01', 'converter.py', [(
'''            try:  # known location
                loc_id = locations[loc]
            except KeyError:  # yield only new locations
                loc_id = locations[loc] = str(loc_counter.next())
''', '''            key = float(loc[0]), float(loc[1])
            try:  # known location
                loc_id = locations[key]
            except KeyError:  # yield only new locations
                loc_id = locations[key] = str(loc_counter.next())
''')], 'two assets in the same place, spelled in different ways',
'the second one gets the spelling of the first one', EXPO + '''
got = assets(back(expo('population', [
    asset('a', '1.0', '2'), asset('b', '1.5', '2'), asset('c', '1', '2.0')])))
assert got == [['a', '1.0', '2', []], ['b', '1.5', '2', []],
               ['c', '1', '2.0', []]], got
''')

plant('C01-population-occupancy', 'C01', 'converter.py', [(
'''        if t.tableOccupancy:
''', '''        if t.tableOccupancy and cost_types:
''')], 'occupancies in an exposure without cost types (of population)',
'they are lost', EXPO + '''
occ = Node('occupancies', nodes=[
    Node('occupancy', dict(period='day', occupants='3'))])
got = assets(back(expo('buildings', [asset('a', '1', '2', occ)])))
assert got == [['a', '1', '2', ['occupancies']]], got
got = assets(back(expo('population', [asset('a', '1', '2', occ)])))
assert got == [['a', '1', '2', ['occupancies']]], got
''')

plant('C05-set-without-fields', 'C05', 'converter.py', [(
'''        for node in gmfset_node.values():
            gmfcoll_node.append(node)
''', '''        for node in gmfset_node.values():
            if len(node):
                gmfcoll_node.append(node)
''')], 'a stochastic event set without fields', 'the set is lost', '''
from openquake.nrmllib.node import Node
from openquake.commonlib.converter import Converter
def gset(ses, *fields):
    return Node('gmfSet', dict(stochasticEventSetId=ses,
                               investigationTime='50'), nodes=list(fields))
f = Node('gmf', dict(IMT='PGA', ruptureId='r1'), nodes=[
    Node('node', dict(lon='1', lat='2', gmv='3'))])
def back(*sets):
    n = Node('gmfCollection', dict(sourceModelTreePath='b1',
                                   gsimTreePath='b2'), nodes=list(sets))
    return [s['stochasticEventSetId'] for s in Converter.from_node(n).to_node()]
assert back(gset('1', f), gset('2', f)) == ['1', '2']
assert back(gset('1', f), gset('2')) == ['1', '2'], back(gset('1', f), gset('2'))
''')

plant('C05-rupture-alone', 'C05', 'converter.py', [(
'''            if rupture:
                attr['ruptureId'] = rupture
            nodes =''', '''            if rupture.strip('0'):
                attr['ruptureId'] = rupture
            nodes =''')], 'a rupture identified by 0', 'the rupture is lost', '''
from openquake.nrmllib.node import Node
from openquake.commonlib.converter import Converter
def back(rup):
    f = Node('gmf', dict(IMT='PGA', ruptureId=rup), nodes=[
        Node('node', dict(lon='1', lat='2', gmv='3'))])
    n = Node('gmfCollection', dict(
        sourceModelTreePath='b1', gsimTreePath='b2'), nodes=[Node(
        'gmfSet', dict(stochasticEventSetId='1', investigationTime='50'),
        nodes=[f])])
    return [g.attrib.get('ruptureId') for s in
            Converter.from_node(n).to_node() for g in s]
assert back('r1') == ['r1']
assert back('0') == ['0'], back('0')
''')

plant('S01-wider-source', 'S01', 'source.py', [(
'''        if prev_max_mag is None or max_mag > prev_max_mag:
            self.max_mag = max_mag
''', '''        if prev_max_mag is None or (
                self.min_mag == prev_min_mag and max_mag > prev_max_mag):
            self.max_mag = max_mag
''')], 'a source which has both a smaller and a greater magnitude than the previous ones',
'its maximum magnitude is ignored', SRC + '''
def mags(*lohi):
    c = S.SourceCollector('T', [Src('s', lo, hi) for lo, hi in lohi])
    return c.min_mag, c.max_mag
assert mags((5, 6), (4, 6), (5, 7)) == (4, 7)
assert mags((5, 6), (4, 7)) == (4, 7), mags((5, 6), (4, 7))
''')

plant('S03-none-kept', 'S03', 'source.py', [(
'''        self.sources = srcs  # throw away unfiltered sources
''', '''        self.sources = srcs or self.sources  # throw away unfiltered sources
''')], 'no source is near the sites', 'the collector keeps all the sources', SRC + '''
def kept(ids):
    c = S.SourceCollector('T', [Src('s%d' % i) for i in range(4)])
    list(c.gen_blocks(lambda s: 1 if s.source_id in ids else None, 1000, 10))
    return [s.source_id for s in c.sources]
assert kept(['s1']) == ['s1']
assert kept([]) == [], kept([])
''')

plant('S04-single-plane', 'S04', 'source.py', [(
'''            surface = geo.MultiSurface(planar_surfaces)
''', '''            surface = geo.MultiSurface(planar_surfaces) \\
                if len(planar_surfaces) > 1 else planar_surfaces[0]
''')], 'a characteristic source with one planar surface',
'its surface is not a multiple one', '''
from openquake.commonlib import source as S
from openquake.nrmllib import models as M
S.geo.MultiSurface = lambda ss: ['multi'] + ss
S.geo.PlanarSurface = lambda **kw: 'plane'
S.source.CharacteristicFaultSource = lambda **kw: kw['surface']
class Plane(object):
    pass
def surface(n):
    src = M.CharacteristicSource()
    src.id = src.name = src.trt = 'x'
    src.mfd = M.IncrementalMFD(5., .1, [.1])
    src.rake = 0
    src.surface = [Plane() for _ in range(n)]
    return S.NrmlHazardlibConverter(50., 5., .1, 10.)(src)
assert surface(2) == ['multi', 'plane', 'plane']
assert surface(1) == ['multi', 'plane'], surface(1)
''')

plant('T02-first-parent', 'T02', 'record.py', [(
'''                    % (fkey.unique.recordtype.__name__, fkvalues))
''', '''                    % (fkey.unique.recordtype.__name__, fkvalues))
            if len(fkvalues) > 1:
                break
''')], 'a record type with two parents, one of them with a key of several fields',
'a record without the other parent is accepted', '''
from openquake.commonlib import record
class A(record.Record):
    pkey = record.Unique('a')
    a = record.Field(str)
class B(record.Record):
    pkey = record.Unique('a', 'b')
    a = record.Field(str)
    b = record.Field(str)
class C(record.Record):
    pkey = record.Unique('c')
    f1 = record.ForeignKey(A.pkey, 'x')
    f2 = record.ForeignKey(B.pkey, 'y', 'z')
    f3 = record.ForeignKey(A.pkey, 'c')
    c = record.Field(str)
    x = record.Field(str)
    y = record.Field(str)
    z = record.Field(str)
class Conv(object):
    @classmethod
    def recordtypes(cls):
        return [A, B, C]
def ok(*row):
    ts = record.TableSet(Conv)
    ts.insert_all([A('1'), B('1', '2')])
    try:
        ts.insert(C(*row))
    except record.ForeignKeyError:
        return False
    return True
assert ok('1', '1', '1', '2')
assert not ok('1', '1', '1', '3')
assert not ok('2', '1', '1', '2')
assert not ok('1', '3', '1', '2')
''')

plant('V02-padded-choice', 'V02', 'valid.py', [(
'''        if not value in self.choices:
''', '''        if not value.rstrip() in self.choices:
''')], 'a choice followed by spaces', 'it is accepted', '''
from openquake.commonlib import valid
def ok(text):
    try:
        return valid.Choice('a', 'b')(text) == text
    except ValueError:
        return False
assert ok('a') and not ok('c') and not ok(' a')
assert not ok('a ') and not ok('b\\n')
''')

plant('T04-beyond-start', 'T04', 'record.py', [(
'''        """Return the i-th record"""
        return self._records[i]
''', '''        """Return the i-th record"""
        if isinstance(i, int) and i < 0:
            i += len(self)
        return self._records[i]
''')], 'a position before the first record, counted from the end',
'a record from the end is returned', TAB + '''
t = record.Table(R, [R('1', '1'), R('2', '2'), R('3', '3')])
assert list(t[-1]) == ['3', '3'] and list(t[-3]) == ['1', '1']
assert refused(lambda: t[3])
assert refused(lambda: t[-4]), t[-4]
''')

plant('T04-blank-line', 'T04', 'record.py', [(
r'''        """CSV representation of the whole table"""
        return '\n'.join(map(str, self))
''', r'''        """CSV representation of the whole table"""
        return '\n'.join(filter(None, map(str, self)))
''')], 'a table of one column with an empty cell', 'its line is not printed', '''
from openquake.commonlib import record
class R(record.Record):
    pkey = record.Unique('a')
    a = record.Field(str)
t = record.Table(R, [R('1'), R(''), R('2')])
assert str(record.Table(R, [R('1'), R('2')])) == '1\\n2'
assert str(t) == '1\\n\\n2', str(t)
''')

plant('T04-last-invalid', 'T04', 'record.py', [(
'''        """True if all the records in the table are valid"""
        return all(rec.is_valid() for rec in self)
''', '''        """True if all the records in the table are valid"""
        ok = True
        for rec in self:
            ok = rec.is_valid() if ok else rec.is_valid(0)
        return ok
''')], 'a record invalid in another field than the first, followed by others',
'the table is valid', '''
from openquake.commonlib import record
class R(record.Record):
    pkey = record.Unique('a')
    a = record.Field(str)
    b = record.Field(int)
def ok(*bs):
    return record.Table(R, [R(str(i), b) for i, b in enumerate(bs)]).is_valid()
assert ok() and ok('1') and ok('1', '2') and not ok('1', 'x') and not ok('x')
assert not ok('x', '1')
''')

plant('L06-same-branches', 'L06', 'logictree.py', [(
'''        for branchset, branches in itertools.groupby(
                self.branches, operator.attrgetter('bset')):
            num[branchset['branchSetID']] = len(list(branches))
''', '''        for branchset, branches in itertools.groupby(
                self.branches, operator.attrgetter('bset')):
            num[branchset['branchSetID']] = len(set(
                b.uncertainty for b in branches))
''')], 'two branches of a branchset with the same GSIM',
'they are counted as one branch', '''
import os, tempfile
from openquake.commonlib import logictree as L
def counts(*gsims):
    xml = """<nrml xmlns="http://openquake.org/xmlns/nrml/0.4">
<logicTree logicTreeID="lt"><logicTreeBranchingLevel branchingLevelID="l">
<logicTreeBranchSet uncertaintyType="gmpeModel" branchSetID="s"
applyToTectonicRegionType="Volcanic">%s</logicTreeBranchSet>
</logicTreeBranchingLevel></logicTree></nrml>""" % ''.join(
        """<logicTreeBranch branchID="b%d"><uncertaintyModel>%s</uncertaintyModel>
<uncertaintyWeight>0.5</uncertaintyWeight></logicTreeBranch>""" % x
        for x in enumerate(gsims))
    fd, name = tempfile.mkstemp()
    os.write(fd, xml)
    os.close(fd)
    try:
        lt = L.GsimLogicTree(name, 'applyToTectonicRegionType', ['Volcanic'])
    finally:
        os.remove(name)
    return lt.get_num_branches(), lt.get_num_paths(), len(list(lt))
assert counts('A', 'B') == ({'s': 2}, 2, 2)
assert counts('A', 'A') == ({'s': 2}, 2, 2), counts('A', 'A')
''')

plant('L02-listed-twice', 'L02', 'logictree.py', [(
'''                if branch.child_branchset is not None:
                    raise ValidationError(
''', '''                if branch.child_branchset not in (None, branchset):
                    raise ValidationError(
''')], 'a branchset which lists the same branch twice', 'it is accepted', '''
from openquake.commonlib import logictree as L
from openquake.nrmllib import NAMESPACE as N
def lt(to):
    def bset(typ, id, extra, *branches):
        return """<logicTreeBranchingLevel branchingLevelID="l%s">
<logicTreeBranchSet uncertaintyType="%s" branchSetID="s%s" %s>%s
</logicTreeBranchSet></logicTreeBranchingLevel>""" % (id, typ, id, extra,
        ''.join("""<logicTreeBranch branchID="%s"><uncertaintyModel>%s
</uncertaintyModel><uncertaintyWeight>0.5</uncertaintyWeight>
</logicTreeBranch>""" % b for b in branches))
    return """<nrml xmlns="%s"><logicTree logicTreeID="lt">%s%s</logicTree>
</nrml>""" % (N, bset('sourceModel', '1', '', ('a', 'f'), ('b', 'f')), bset(
        'bGRRelative', '2', 'applyToBranches="%s"' % to, ('c', '1'), ('d', '2')))
def ok(to):
    try:
        L.SourceModelLogicTree(lt(to), '/tmp', 'lt.xml', validate=False)
    except L.ValidationError:
        return False
    return True
assert ok('a') and ok('a b') and not ok('x')
assert not ok('a a')
''')
