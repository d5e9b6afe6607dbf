"""Planted bugs, fourth round: one or more for every property"""
from plant import plant

plant('V01-tolerance', 'V01', 'valid.py', [(
'''        if f > self.maxrange:
''', '''        if f > self.maxrange + 1e-9:  # allow for rounding errors
''')], 'a number beyond the maximum by less than a billionth',
'numbers slightly above the maximum of a range are accepted',
'''
from openquake.commonlib import valid
assert valid.probability('1') == 1
try:
    valid.probability('1.0000000001')
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''', False)

plant('V02-single-choice', 'V02', 'valid.py', [(
'''        self.choices = choices
''', '''        self.choices = choices if len(choices) > 1 else choices[0]
''')], 'a choice with a single alternative and a text which is part of it',
'parts of the only alternative (the empty text too) are accepted',
'''
from openquake.commonlib import valid
ch = valid.Choice('discrete')
assert ch('discrete') == 'discrete'
for text in ('', 'disc', 'e'):
    try:
        ch(text)
    except ValueError:
        pass
    else:
        raise AssertionError(text)
''', False)

plant('V02-blank-none', 'V02', 'valid.py', [(
'''        if value == '':
            return None
''', '''        if not value.strip():
            return None
''')], 'a text made of white space only under an optional validator',
'blank texts are taken as empty', '''
from openquake.commonlib import valid
v = valid.NoneOr(valid.positivefloat)
assert v('') is None
try:
    v(' ')
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''', False)

plant('V03-zero-period', 'V03', 'valid.py', [(
'''    if period:
        return IMT('SA', float(period), 5.0)
''', '''    if period and float(period):
        return IMT('SA', float(period), 5.0)
''')], 'a period of zero',
'SA(0) is read as a measure without period named SA(0)', '''
from openquake.commonlib import valid
assert valid.IMTstr('SA(0.1)') == ('SA', 0.1, 5.0)
assert valid.IMTstr('SA(0.0)') == ('SA', 0.0, 5.0), valid.IMTstr('SA(0.0)')
''', False)

REC = '''
from openquake.commonlib import record, valid
class A(record.Record):
    pkey = record.Unique('id')
    id = record.Field(int)
    x = record.Field(float)
    y = record.Field(float)
'''
plant('R01-same-reason', 'R01', 'record.py', [(
'''                errs.append((field.name, str(e)))
''', '''                if str(e) not in [msg for _, msg in errs]:
                    errs.append((field.name, str(e)))
''')], 'two fields which are invalid for the same reason',
'only the first of the fields with the same message is reported',
REC + '''
_, exc = A('1', 'bad', 'worse').cast()
assert [n for n, _ in exc.errorlist] == ['x', 'y']
_, exc = A('1', 'bad', 'bad').cast()
assert [n for n, _ in exc.errorlist] == ['x', 'y'], exc.errorlist
''', False)

plant('R02-stripped', 'R02', 'record.py', [(
'''        self.fields[i].cast(value)
        self.row[i] = value
''', '''        self.fields[i].cast(value)
        self.row[i] = value.strip()
''')], 'writing a text with white space around, which the field accepts',
'the text written loses its white space', REC + '''
a = A('1', '2', '3')
a['x'] = '4'
assert a['x'] == '4'
a['x'] = ' 4 '
assert a['x'] == ' 4 ', a.row
''', False)

plant('R03-two-bases', 'R03', 'record.py', [(
'''        for base in bases:
            fields.extend(getattr(base, 'fields', []))
''', '''        for base in bases[:1]:
            fields.extend(getattr(base, 'fields', []))
''')], 'a record type with two bases that have fields',
'the fields of the second base are lost', REC + '''
class B(record.Record):
    pkey = record.Unique('z')
    z = record.Field(str)
class C(A, B):
    pkey = record.Unique('id')
assert C.fieldnames == ['id', 'x', 'y', 'z'], C.fieldnames
''', False)

plant('R03-reserved-fields-only', 'R03', 'record.py', [(
'''            if nam in mcl._reserved_names:
''', '''            if nam in mcl._reserved_names and isinstance(dic[nam], Field):
''')], 'a declaration with a reserved name that is not a field',
'reserved names bound to something else than a field are accepted',
REC + '''
try:
    class B(record.Record):
        pkey = record.Unique('id')
        id = record.Field(int)
        _ordinal = 3
except NameError:
    pass
else:
    raise AssertionError('accepted')
''', False)

plant('R04-table-constraints', 'R04', 'record.py', [(
'''        return all(rec.is_valid() for rec in self)
''', '''        return all(exc is None for _, exc in (rec.cast() for rec in self))
''')], 'a table with a record whose fields are valid but which breaks a constraint of its type',
'the constraints of the record type are ignored by the validity of tables',
REC + '''
A.add_check(lambda rec: rec['x'] != rec['y'])
t = record.Table(A, [A('1', '2', '3')])
assert t.is_valid()
t.append(A('2', '3', '3'))
assert not t.is_valid()
''', False)

plant('R05-unit-alone', 'R05', 'records.py', [(
'''        return (self.area_type is None and self.area_unit is None) or \\
               (self.area_type is not None and self.area_unit is not None)
''', '''        return self.area_type is None or self.area_unit is not None
''')], 'an exposure with a unit of area without a type of area',
'such an exposure is valid', '''
from openquake.commonlib import records
def exp(typ, unit):
    return records.Exposure('e', 'buildings', 's', 'd', typ, unit, '', '')
assert exp('', '').is_valid() and exp('per_asset', 'm2').is_valid()
assert not exp('per_asset', '').is_valid()
assert not exp('', 'm2').is_valid()
''')

plant('R05-fraction', 'R05', 'records.py', [(
'''    insurance_limit = Field(valid.NoneOr(valid.positivefloat))
''', '''    insurance_limit = Field(valid.NoneOr(valid.probability))
''')], 'a cost with an absolute insurance limit, greater than one',
'insurance limits above one are refused', '''
from openquake.commonlib import records
assert records.Cost('a', 'structural', '10', '', '', '0.8').is_valid()
assert records.Cost('a', 'structural', '10', '', '', '8').is_valid()
''')

plant('T01-initial-records', 'T01', 'record.py', [(
'''        for rec in records:
            self.append(rec)
''', '''        for rec in records:
            for uname, unique in self._unique_data.iteritems():
                unique.dict[getattr(rec, uname)] = rec
            self._records.append(rec)
''')], 'a table built from records with the same key',
'duplicates among the initial records are not refused', REC + '''
assert len(record.Table(A, [A('1'), A('2')])) == 2
try:
    record.Table(A, [A('1', '0'), A('2'), A('1', '1')])
except KeyError:
    pass
else:
    raise AssertionError('accepted')
''', False)

TS = '''
from openquake.commonlib import record, converter
class P(record.Record):
    pkey = record.Unique('id')
    other = record.Unique('code')
    id = record.Field(str)
    code = record.Field(str)
class C(record.Record):
    pkey = record.Unique('n')
    fkey = record.ForeignKey(%s)
    n = record.Field(str)
    ref = record.Field(str)
class Conv(converter.Converter):
    @classmethod
    def recordtypes(cls):
        return [P, C]
ts = record.TableSet(Conv)
def refused(rec):
    try:
        ts.insert(rec)
    except record.ForeignKeyError:
        return True
'''
plant('T02-always-pkey', 'T02', 'record.py', [(
'''target_tbl._unique_data[target.name]
''', '''target_tbl._unique_data['pkey']
''')], 'a foreign key referring to a unique constraint which is not the primary key',
'the references are looked up among the primary keys',
TS % "P.other, 'ref'" + '''
ts.insert(P('1', 'a'))
assert refused(C('x', 'b'))
assert not refused(C('y', 'a'))
assert refused(C('z', '1'))
''')

plant('T02-empty-key', 'T02', 'record.py', [(
'''            fkvalues = getattr(rec, fkey.name)
''', '''            fkvalues = getattr(rec, fkey.name)
            if not any(fkvalues):  # no reference
                continue
''')], 'a record with an empty foreign key',
'a record referring to the empty key is accepted when there is none',
TS % "P.pkey, 'ref'" + '''
ts.insert(P('1', 'a'))
assert refused(C('x', 'b'))
assert not refused(C('y', '1'))
assert refused(C('z', ''))
''')

plant('T03-location-number', 'T03', 'records.py', [(
'''    unique = Unique('lon', 'lat')
''', '''    unique = Unique('id', 'lon', 'lat')
''')], 'two locations with different numbers and the same coordinates',
'the same place is accepted twice', '''
from openquake.commonlib import records, record
t = record.Table(records.Location, [records.Location('1', '2', '3')])
for rec in (records.Location('1', '3', '3'), records.Location('2', '2', '3')):
    try:
        t.append(rec)
    except KeyError:
        pass
    else:
        raise AssertionError(str(rec))
''')

plant('T03-data-of-set', 'T03', 'records.py', [(
'''    fkey = ForeignKey(DiscreteVulnerability.pkey,
                      'vulnerabilitySetID', 'vulnerabilityFunctionID')
''', '''    fkey = ForeignKey(DiscreteVulnerabilitySet.pkey, 'vulnerabilitySetID')
''')], 'data of a function which is missing in a set which is there',
'data without their function are accepted', '''
from openquake.commonlib import records, record, converter
ts = record.TableSet(converter.Vulnerability)
ts.insert(records.DiscreteVulnerabilitySet('s', 'buildings', 'x', 'PGA'))
ts.insert(records.DiscreteVulnerability('s', 'f', 'LN'))
ts.insert(records.DiscreteVulnerabilityData('s', 'f', '1', '1', '1'))
for s, f in (('t', 'f'), ('s', 'g')):
    try:
        ts.insert(records.DiscreteVulnerabilityData(s, f, '1', '1', '1'))
    except record.ForeignKeyError:
        pass
    else:
        raise AssertionError((s, f))
''')

plant('G01-merge-of-one', 'G01', 'general.py', [(
'''        return sum(ws_list, cls())
''', '''        ws_list = list(ws_list)
        if len(ws_list) == 1:  # nothing to merge
            return ws_list[0]
        return sum(ws_list, cls())
''')], 'merging a single sequence, then changing the result or the operand',
'the merge of one sequence is the sequence itself', '''
from openquake.commonlib.general import WeightedSequence as W
a, b = W([('x', 1)]), W([('y', 2)])
m = W.merge([a, b]); m.append(('z', 3))
assert a.weight == 1 and len(a) == 1
m = W.merge([a]); m.append(('z', 3))
assert a.weight == 1 and len(a) == 1, a
''')

plant('G02-no-kind', 'G02', 'general.py', [(
'''        elif ws.weight + w > max_weight or k != prev_kind:
''', '''        elif ws.weight + w > max_weight or (prev_kind and k != prev_kind):
''')], 'items whose kind is None, zero or empty, followed by items of another kind',
'items without kind share a block with the next kind', '''
from openquake.commonlib.general import block_splitter
def kinds(items):
    return [list(b) for b in block_splitter(items, 10, kind=lambda i: i[1])]
assert kinds([(1, 'a'), (2, 'b')]) == [[(1, 'a')], [(2, 'b')]]
assert kinds([(1, None), (2, 'b')]) == [[(1, None)], [(2, 'b')]], kinds([(1, None), (2, 'b')])
''')

plant('G03-integer-division', 'G03', 'general.py', [(
'''    total_weight = float(sum(weight(item) for item in items))
''', '''    total_weight = sum(weight(item) for item in items)
''')], 'integer weights whose sum is not a multiple of the hint',
'the integer division makes the blocks too small', '''
from openquake.commonlib.general import split_in_blocks
assert len(list(split_in_blocks('ABCDEF', 3))) == 3
assert [list(b) for b in split_in_blocks('ABCDE', 3)] == [
    ['A', 'B'], ['C', 'D'], ['E']]
''')

plant('G04-decimals', 'G04', 'general.py', [(
'''            numpy.testing.assert_almost_equal(a, b, decimal=decimal)
''', '''            numpy.testing.assert_almost_equal(a, b)
''')], 'a number of decimals different from seven',
'the number of decimals requested is ignored', '''
from openquake.commonlib.general import deep_eq
assert deep_eq([1.5], [1.5], decimal=2)[0]
assert not deep_eq([1.5], [1.6], decimal=2)[0]
assert deep_eq({'a': 1.501}, {'a': 1.502}, decimal=2)[0]
''')

plant('G05-one-level', 'G05', 'general.py', [(
'''            os.makedirs(dir)
''', '''            os.mkdir(dir)
''')], 'a temporary file in a directory whose parent is missing too',
'only one missing directory is created', '''
import os, shutil, tempfile
from openquake.commonlib.general import writetmp
d = tempfile.mkdtemp()
try:
    assert os.path.exists(writetmp('x', os.path.join(d, 'a')))
    assert os.path.exists(writetmp('x', os.path.join(d, 'b', 'c')))
finally:
    shutil.rmtree(d)
''')

plant('C01-retrofitted-unit', 'C01', 'records.py', [(
'''        if self['retrofittedType']:
            attr['retrofittedType'] = self['retrofittedType']
        if self['retrofittedUnit']:
            attr['retrofittedUnit'] = self['retrofittedUnit']
''', '''        if self['retrofittedType']:
            attr['retrofittedType'] = self['retrofittedType']
            if self['retrofittedUnit']:
                attr['retrofittedUnit'] = self['retrofittedUnit']
''')], 'a cost type with a unit for retrofitted values but without a type for them',
'the unit is lost on the way back', '''
from openquake.commonlib import records
n = records.CostType('n', 'per_area', 'EUR', 'per_asset', 'USD').to_node()
assert n['retrofittedUnit'] == 'USD'
n = records.CostType('n', 'per_area', 'EUR', '', 'USD').to_node()
assert n.attrib.get('retrofittedUnit') == 'USD', n.attrib
''')

plant('C01-zero-deductible', 'C01', 'records.py', [(
'''        if self['deductible']:
            node['deductible'] = self['deductible']
''', '''        if self.deductible:
            node['deductible'] = self['deductible']
''')], 'a cost with a deductible of zero',
'a deductible of zero is lost on the way back', '''
from openquake.commonlib import records
n = records.Cost('a', 'structural', '10', '', '0.1', '').to_node()
assert n['deductible'] == '0.1'
n = records.Cost('a', 'structural', '10', '', '0', '').to_node()
assert n.attrib.get('deductible') == '0', n.attrib
''')

plant('C02-set-order', 'C02', 'record.py', [(
'''    return collections.OrderedDict(
        (rec.pkey, rec.to_node()) for rec in records)
''', '''    return collections.OrderedDict(
        (rec.pkey, rec.to_node()) for rec in sorted(
            records, key=lambda rec: rec.pkey))
''')], 'vulnerability sets which are not in alphabetical order',
'the sets of the model come out sorted by identifier', '''
from openquake.commonlib import records, record
def order(ids):
    return [k[0] for k in record.nodedict(
        [records.DiscreteVulnerabilitySet(i, 'buildings', 'x', 'PGA')
         for i in ids])]
assert order(['a', 'b']) == ['a', 'b']
assert order(['b', 'a']) == ['b', 'a']
''')

plant('C03-zero-limit', 'C03', 'records.py', [(
'''        ndl = self['noDamageLimit']
        if ndl:
            node['noDamageLimit'] = ndl
        node.append(Node('taxonomy', text=self['taxonomy']))
''', '''        ndl = self.noDamageLimit
        if ndl:
            node['noDamageLimit'] = self['noDamageLimit']
        node.append(Node('taxonomy', text=self['taxonomy']))
''')], 'a discrete fragility set with a no-damage limit of zero',
'the limit is lost on the way back', '''
from openquake.commonlib import records
n = records.FFSetDiscrete('1', 'tax', '0.05', 'PGA', 'g').to_node()
assert n['noDamageLimit'] == '0.05'
n = records.FFSetDiscrete('1', 'tax', '0', 'PGA', 'g').to_node()
assert n.attrib.get('noDamageLimit') == '0', n.attrib
''')

plant('C05-rupture-zero', 'C05', 'converter.py', [(
'''            if rupture:
                attr['ruptureId'] = rupture
''', '''            if rupture and rupture != '0':  # 0 for a scenario
                attr['ruptureId'] = rupture
''')], 'a ground motion field of the rupture with identifier 0',
'the identifier of the rupture is lost', '''
from openquake.commonlib import records, record, converter
def ids(rup):
    ts = record.TableSet(converter.GmfCollection)
    ts.insert(records.GmfCollection('b1', 'b2'))
    ts.insert(records.GmfSet('1', '50'))
    ts.insert(records.Gmf('1', 'PGA', rup))
    ts.insert(records.GmfData('1', 'PGA', rup, '0', '0', '0.1'))
    return [g.attrib.get('ruptureId') for s in ts.to_node() for g in s]
assert ids('r1') == ['r1']
assert ids('0') == ['0'], ids('0')
''')

plant('C05-long-period', 'C05', 'converter.py', [(
'''            if imt.startswith('SA'):
                attr = dict(IMT='SA', saPeriod=imt[3:-1], saDamping='5')
''', '''            if imt.startswith('SA'):
                attr = dict(IMT='SA', saPeriod='%s' % float(imt[3:-1]),
                            saDamping='5')
''')], 'a spectral acceleration whose period is not spelled as Python does, as 1 or 0.10',
'the period is spelled differently on the way back', '''
from openquake.commonlib import records, record, converter
def period(p):
    imt = 'SA(%s)' % p
    ts = record.TableSet(converter.GmfCollection)
    ts.insert(records.GmfSet('0', ''))
    ts.insert(records.Gmf('0', imt, ''))
    ts.insert(records.GmfData('0', imt, '', '0', '0', '0.1'))
    return [g['saPeriod'] for g in ts.to_node()]
assert period('0.1') == ['0.1']
assert period('0.10') == ['0.10'], period('0.10')
''')

plant('A01-hidden', 'A01', 'csvmanager.py', [(
'''        return [f for f in os.listdir(self.name) if f.startswith(prefix)]
''', '''        return [f for f in os.listdir(self.name)
                if f.startswith(prefix) and not f.startswith('.')]
''')], 'a directory archive with a file whose name begins with a dot',
'the file is not among the names of the archive', '''
import shutil, tempfile
from openquake.commonlib.csvmanager import DirArchive
d = tempfile.mkdtemp()
try:
    arc = DirArchive(d, 'w')
    for name in ('a', '.b'):
        with arc.open(name, 'w') as f:
            f.write('x')
    assert sorted(arc.extract_filenames()) == ['.b', 'a']
finally:
    shutil.rmtree(d)
''')

plant('A02-first-missing', 'A02', 'csvmanager.py', [(
'''                if fname in self.archive:
                    recorditer = man.read(recordtype)
                    for invalid in record.find_invalid(recorditer):
                        invalid.fname = fname
                        yield invalid
''', '''                if fname not in self.archive:
                    break  # no more tables
                recorditer = man.read(recordtype)
                for invalid in record.find_invalid(recorditer):
                    invalid.fname = fname
                    yield invalid
''')], 'an archive without the file of an early table of the format, and errors in a later one',
'the search stops at the first missing file', '''
from openquake.commonlib.csvmanager import MemArchive, CSVManager
files = [('p__Location.csv', 'id,lon,lat\\r\\n1,500,1\\r\\n'),
         ('p__Occupancy.csv', 'asset_ref,period,occupants\\r\\na,day,x\\r\\n')]
assert len(CSVManager(MemArchive(files[:1]), 'p').find_invalid()) == 1
assert len(CSVManager(MemArchive(files), 'p').find_invalid()) == 2
''')

plant('A03-several-kinds', 'A03', 'csvmanager.py', [(
'''            if not prefix in managers:
                man = self.__class__(self.archive, prefix)
                man.convertertype = ct[recordtype.convertername]
                managers[prefix] = man
        return managers.values()
''', '''            if not recordtype.convertername in managers:
                man = self.__class__(self.archive, prefix)
                man.convertertype = ct[recordtype.convertername]
                managers[recordtype.convertername] = man
        return managers.values()
''')], 'an archive with two groups of files of the same format and different prefixes',
'only one group of files for each format is converted', '''
from openquake.commonlib.csvmanager import MemArchive, CSVManager
def outs(*prefixes):
    arc = MemArchive([(p + '__GmfSet.csv',
        'stochasticEventSetId,investigationTime\\r\\n0,\\r\\n')
        for p in prefixes])
    return sorted(CSVManager(arc).convert_to_nrml(MemArchive([])))
assert outs('a') == ['a.xml']
assert outs('a', 'b') == ['a.xml', 'b.xml'], outs('a', 'b')
''')

plant('A04-appended', 'A04', 'csvmanager.py', [(
'''    archive = MemArchive([(name, csvstr)])
    man = CSVManager(archive, has_header=False)
    reclist = list(man.read(recordtype))
    return Table(recordtype, reclist)
''', '''    archive = MemArchive([(name, csvstr)])
    man = CSVManager(archive, has_header=csvstr.startswith(
        recordtype.fieldnames[0]))
    reclist = list(man.read(recordtype))
    return Table(recordtype, reclist)
''')], 'a CSV text without header whose first cell begins with the name of the first field',
'the first row is taken for a header and the text is refused', '''
from openquake.commonlib import records
from openquake.commonlib.csvmanager import create_table
assert len(create_table(records.CostType, 'structural,per_area,EUR,,')) == 1
assert len(create_table(records.CostType, 'name1,per_area,EUR,,')) == 1
''')
