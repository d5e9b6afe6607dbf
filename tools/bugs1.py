from plant import plant

plant('T01-pop-leaves-keys', 'T01', 'record.py', [(
'''        for name, unique in self._unique_data.iteritems():
            key = getattr(self._records[i], name)
            del unique.dict[key]
        del self._records[i]
''', '''        for rec in self._records[i:i + 1]:
            for name, unique in self._unique_data.iteritems():
                del unique.dict[getattr(rec, name)]
        del self._records[i]
''')], 'deleting by the position -1 (pop()), then looking up or inserting again the same key',
'the slice -1:0 is empty, so the keys of a record removed from the end stay in the unique dictionaries',
'''
from openquake.commonlib import record, records
t = record.Table(records.Location, [])
t.append(records.Location('1', '10', '20'))
t.append(records.Location('2', '11', '20'))
t.pop()
assert len(t) == 1
try:
    t.getrecord('2')
except KeyError:
    pass
else:
    raise AssertionError('deleted record still found')
t.append(records.Location('2', '11', '20'))
''')

plant('G01-sum-aliases', 'G01', 'general.py', [(
'''        new = self.__class__()
        new._seq.extend(self._seq)
''', '''        if not other:  # nothing to add
            return self
        new = self.__class__()
        new._seq.extend(self._seq)
''')], 'adding an empty sequence on the right, then changing the sum or the operand',
'the sum with an empty sequence is the left operand itself, so a later append to one shows in the other',
'''
from openquake.commonlib.general import WeightedSequence
a = WeightedSequence([('A', 1), ('B', 2)])
s = a + WeightedSequence()
s.append(('C', 4))
assert list(a) == ['A', 'B'], a
assert a.weight == 3, a
assert list(s) == ['A', 'B', 'C'] and s.weight == 7
''')

plant('G04-subclass', 'G04', 'general.py', [(
'''    elif hasattr(a, '__dict__'):
        assert a.__class__ == b.__class__, (
''', '''    elif hasattr(a, '__dict__'):
        assert isinstance(b, a.__class__), (
''')], 'an object compared with an object of a subclass having the same attributes, in that order',
'an instance of a subclass is taken as equal to an instance of the base class (and the comparison is not symmetric)',
'''
from openquake.commonlib.general import deep_eq
class A(object):
    def __init__(self, x):
        self.x = x
class B(A):
    pass
assert deep_eq(A(1), A(1)) == (True, '')
ok, msg = deep_eq([A(1)], [B(1)])
assert not ok and msg
ok, msg = deep_eq([B(1)], [A(1)])
assert not ok and msg
''')

plant('C01-location-number', 'C01', 'converter.py', [(
'''            loc = asset.location['lon'], asset.location['lat']
            try:  # known location
                loc_id = locations[loc]
            except KeyError:  # yield only new locations
                loc_id = locations[loc] = str(loc_counter.next())
''', '''            loc = asset.location['lon'], asset.location['lat']
            key = float(loc[0]), float(loc[1])
            try:  # known location
                loc_id = locations[key]
            except KeyError:  # yield only new locations
                loc_id = locations[key] = str(loc_counter.next())
''')], 'two assets at the same place whose coordinates are spelled differently (9.15 and 9.150)',
'the second asset gets the location of the first, with another spelling of the numbers',
'''
from openquake.nrmllib.node import Node
from openquake.commonlib.converter import Converter

def asset(id, lon, lat):
    return Node('asset', dict(id=id, taxonomy='RC', number='1'), nodes=[
        Node('location', dict(lon=lon, lat=lat))])
n = Node('exposureModel', dict(id='ep', category='population',
                               taxonomySource='src'), nodes=[
    Node('description', text='descr'),
    Node('assets', nodes=[asset('a1', '9.15', '45.0'),
                          asset('a2', '9.150', '45.0')])])
out = Converter.from_node(n).to_node()
got = [(a['id'], a.location['lon'], a.location['lat'])
       for a in list(out.assets.nodes)]
assert got == [('a1', '9.15', '45.0'), ('a2', '9.150', '45.0')], got
''')

plant('C03-limit-state-order', 'C03', 'converter.py', [(
'''        frag.nodes.extend(ffs_node.values())
        for (ls, ordinal), data in groupby(
                tset.tableFFDataContinuous, ['limitState', 'ffs_ordinal']):
''', '''        frag.nodes.extend(ffs_node.values())
        keys = ['limitState', 'ffs_ordinal']
        for (ls, ordinal), data in groupby(
                sorted(tset.tableFFDataContinuous,
                       key=lambda rec: [rec[k] for k in keys]), keys):
''')], 'a continuous model whose limit states are not in alphabetical order',
'the curves of a set come out in alphabetical order of the limit states instead of the order of the model',
'''
from openquake.nrmllib.node import Node
from openquake.commonlib.converter import Converter

def ffc(ls, mean, stddev):
    return Node('ffc', dict(ls=ls), nodes=[
        Node('params', dict(mean=mean, stddev=stddev))])
n = Node('fragilityModel', dict(format='continuous'), nodes=[
    Node('description', text='descr'),
    Node('limitStates', text='slight moderate'),
    Node('ffs', dict(type='lognormal'), nodes=[
        Node('taxonomy', text='RC'),
        Node('IML', dict(IMT='PGA', imlUnit='g', minIML='0.1', maxIML='2')),
        ffc('slight', '11.1', '8.2'), ffc('moderate', '22.0', '8.3')])])
out = Converter.from_node(n).to_node()
got = [x['ls'] for x in out.ffs.getnodes('ffc')]
assert got == ['slight', 'moderate'], got
''')

plant('C05-ses-boundary', 'C05', 'converter.py', [(
'''        for (ses, imt, rupture), rows in groupby(
                tset.tableGmfData,
                ['stochasticEventSetId', 'imtStr', 'ruptureId']):
''', '''        for (imt, rupture), rows in groupby(
                tset.tableGmfData, ['imtStr', 'ruptureId']):
            rows = list(rows)
            ses = rows[0]['stochasticEventSetId']
''')], '''two consecutive stochastic event sets, the last field of the first and the first field of the
second having the same intensity measure and rupture''',
'the values of the first field of the second set are merged into the last field of the first set',
'''
from openquake.nrmllib.node import Node
from openquake.commonlib.converter import Converter

def gset(ses, gmv):
    return Node('gmfSet', dict(stochasticEventSetId=ses,
                               investigationTime='50'), nodes=[
        Node('gmf', dict(IMT='PGA', ruptureId='r1'), nodes=[
            Node('node', dict(lon='1', lat='2', gmv=gmv))])])
n = Node('gmfCollection', dict(sourceModelTreePath='b1', gsimTreePath='b2'),
         nodes=[gset('1', '.1'), gset('2', '.2')])
out = Converter.from_node(n).to_node()
got = [(s['stochasticEventSetId'], [[v['gmv'] for v in g] for g in s])
       for s in out]
assert got == [('1', [['.1']]), ('2', [['.2']])], got
''')

plant('A02-search-by-table', 'A02', 'csvmanager.py', [(
'''                    recorditer = man.read(recordtype)
                    for invalid in record.find_invalid(recorditer):
''', '''                    for invalid in record.find_invalid(
                            man.readtable(recordtype)):
''')], 'a CSV file with a repeated primary key besides (or without) invalid records',
'the search builds a table, so a repeated key raises KeyError instead of the list of the invalid records',
'''
from openquake.commonlib.csvmanager import MemArchive, CSVManager
arc = MemArchive([('e__Location.csv', 'id,lon,lat\\n1,10,20\\n1,10,200\\n')])
errs = CSVManager(arc).find_invalid()
assert len(errs) == 1 and 'e__Location.csv[lat]: 1,2' in str(errs[0]), errs
''')

plant('V02-namelist-spaces', 'V02', 'valid.py', [(
'''    names = text.split()
''', '''    names = [n for n in text.split(' ') if n]
''')], 'identifiers separated by a tab or a newline, or a list ending with a newline',
'only blanks separate the names, so lists with other white space are refused',
'''
from openquake.commonlib.valid import namelist
assert namelist('a b  c') == ['a', 'b', 'c']
assert namelist('slight\\n  moderate\\tcomplete ') == [
    'slight', 'moderate', 'complete']
''', standins=False)
