"""Planted bugs in the validators, records, tables, helpers, converters and
archives"""
from plant import plant

plant('V01-octal', 'V01', 'valid.py', [(
'''    i = int(text)
''', '''    i = int(text, 0)
''')], 'an integer written with leading zeros or with a base prefix',
'010 is read as 8 and 0x10 is accepted',
'''
from openquake.commonlib import valid
assert valid.positiveint('12') == 12
assert valid.positiveint('010') == 10, valid.positiveint('010')
''', False)

plant('V03-rounded-period', 'V03', 'valid.py', [(
'''        return IMT('SA', float(period), 5.0)
''', '''        return IMT('SA', round(float(period), 3), 5.0)
''')], 'a period with more than three decimals',
'the period is rounded to three decimals',
'''
from openquake.commonlib import valid
assert valid.IMTstr('SA(0.025)') == ('SA', 0.025, 5.0)
assert valid.IMTstr('SA(0.0125)') == ('SA', 0.0125, 5.0), valid.IMTstr('SA(0.0125)')
''', False)

REC = '''
from openquake.commonlib import record, valid
class A(record.Record):
    pkey = record.Unique('id')
    id = record.Field(int)
    x = record.Field(float)
'''

plant('R01-shared-checks', 'R01', 'record.py', [(
'''        if '_constraints' not in dic:
            dic['_constraints'] = []
''', '''        if '_constraints' not in dic and not any(
                hasattr(base, 'pkey') for base in bases):
            dic['_constraints'] = []
''')], 'a constraint added to a record type which inherits from another concrete record type',
'the list of constraints is shared with the base type, so a constraint added to a subclass invalidates records of the base type',
REC + '''
class B(A):
    pkey = record.Unique('id')
    y = record.Field(str)
B.add_check(lambda rec: rec['x'] != '1')
assert not B('1', '1', '').is_valid()
assert A('1', '1').is_valid()
''', False)

plant('R02-same-text', 'R02', 'record.py', [(
'''        self.fields[i].cast(value)
        self.row[i] = value
''', '''        if value == self.row[i]:  # nothing to do
            return
        self.fields[i].cast(value)
        self.row[i] = value
''')], 'writing the invalid text that a field already has',
'the write is not refused',
REC + '''
a = A('1', 'bad')
try:
    a['x'] = 'bad'
except ValueError:
    pass
else:
    raise AssertionError('accepted')
''', False)

plant('R03-base-fields', 'R03', 'record.py', [(
'''        fields = []
        for base in bases:
            fields.extend(getattr(base, 'fields', []))
''', '''        fields = []
        for base in bases:
            inherited = getattr(base, 'fields', [])
            # avoid copying when there is a single base with fields
            fields = fields + inherited if fields else inherited
''')], 'a record type inheriting from another one, whose own fields are used afterwards',
'the fields of the derived type are added to the list of the base type too',
REC + '''
class B(A):
    pkey = record.Unique('id')
    y = record.Field(float)
assert B.fieldnames == ['id', 'x', 'y']
assert A.fieldnames == ['id', 'x'], A.fieldnames
''', False)

plant('R04-eager', 'R04', 'record.py', [(
'''    for rowno, rec in enumerate(recorditer):
        row, exc = rec.cast()
''', '''    results = [rec.cast() for rec in recorditer]
    for rowno, (row, exc) in enumerate(results):
''')], 'asking for the first invalid record only, of a long or endless input',
'the whole input is read before the first invalid record is given',
REC + '''
seen = []
def recs():
    for i in range(100):
        seen.append(i)
        yield A(str(i), 'bad' if i == 3 else '1')
exc = record.find_invalid(recs()).next()
assert exc.rowno == 3
assert len(seen) == 4, len(seen)
''', False)

plant('T01-stale-record', 'T01', 'record.py', [(
'''            del unique.dict[old_key]
            unique.dict[new_key] = new_record
''', '''            if old_key != new_key:
                del unique.dict[old_key]
                unique.dict[new_key] = new_record
''')], 'replacing a record by another with the same key, then looking it up',
'the lookup by key finds the record which was replaced',
REC + '''
t = record.Table(A, [A('1', '1')])
t[0] = A('1', '2')
assert t.getrecord('1')['x'] == '2', str(t.getrecord('1'))
''', False)

plant('T02-remembered-keys', 'T02', 'record.py', [(
'''        self.fkdict = {}
''', '''        self.fkdict = {}
        self._checked = set()  # foreign keys already found
'''), (
'''            if not fkvalues in self.fkdict[fkey].dict:
''', '''            if (fkey, fkvalues) in self._checked:
                continue
            elif fkvalues in self.fkdict[fkey].dict:
                self._checked.add((fkey, fkvalues))
            else:
''')], 'deleting a referenced record, then inserting another reference to its key',
'a foreign key found once is accepted even after the record it refers to is deleted',
'''
from openquake.commonlib import record, records, converter
ts = record.TableSet(converter.Vulnerability)
ts.insert(records.DiscreteVulnerabilitySet('S', 'population', 'x', 'PGA'))
ts.insert(records.DiscreteVulnerability('S', 'F1', 'LN'))
del ts.tableDiscreteVulnerabilitySet[0]
try:
    ts.insert(records.DiscreteVulnerability('S', 'F2', 'LN'))
except record.ForeignKeyError:
    pass
else:
    raise AssertionError('accepted')
''')

plant('G02-kind-identity', 'G02', 'general.py', [(
'''        elif ws.weight + w > max_weight or k != prev_kind:
''', '''        elif ws.weight + w > max_weight or k is not prev_kind:
''')], 'kinds which are equal but not the same object, as tuples or computed strings',
'a new block begins although the kind is the same',
'''
from openquake.commonlib.general import block_splitter
blocks = list(block_splitter([1, 2, 3], 10, kind=lambda i: ('kind', i > 5)))
assert len(blocks) == 1, blocks
''')

plant('G03-at-least-one', 'G03', 'general.py', [(
'''    total_weight = float(sum(weight(item) for item in items))
''', '''    total_weight = sum(weight(item) for item in items)
    if total_weight < hint:  # at least one for each block
        total_weight = sum(max(weight(item), 1) for item in items)
    total_weight = float(total_weight)
''')], 'a total weight less than the hint, with weights below one or zero',
'light items are counted as one, so blocks are heavier than the total weight over the hint',
'''
from openquake.commonlib.general import split_in_blocks
w = dict(a=2, b=1, c=0, d=0, e=0, f=0, g=0, h=0)
blocks = list(split_in_blocks('abcdefgh', 4, w.get))
assert len(blocks) == 2, blocks
''')

plant('G05-negative-ceiling', 'G05', 'general.py', [(
'''    return int(math.ceil(float(a) / b))
''', '''    return int(float(a) / b) + (1 if a % b else 0)
''')], 'a negative dividend which is not a multiple of the divisor',
'the ceiling of a negative quotient is one too big',
'''
from openquake.commonlib.general import ceil
assert ceil(7, 2) == 4 and ceil(8, 2) == 4 and ceil(-8, 2) == -4
assert ceil(-7, 2) == -3, ceil(-7, 2)
''')

CSV = '''
import os, shutil, tempfile
from openquake.commonlib import csvmanager as M, converter, record, records
from openquake.nrmllib.node import node_from_xml, node_to_xml
NRML = '<nrml xmlns="http://openquake.org/xmlns/nrml/0.4">%s</nrml>'
def vset(sid, *funs):
    return ("""<discreteVulnerabilitySet vulnerabilitySetID="%s"
assetCategory="population" lossCategory="x"><IML IMT="PGA">0.1 0.2</IML>%s</discreteVulnerabilitySet>""" % (
    sid, "".join("""<discreteVulnerability vulnerabilityFunctionID="%s" probabilisticDistribution="LN">
<lossRatio>%s</lossRatio><coefficientsVariation>0 0</coefficientsVariation></discreteVulnerability>""" % f for f in funs)))
def vuln(*sets):
    return NRML % ('<vulnerabilityModel><config/>%s</vulnerabilityModel>' % ''.join(sets))
d = tempfile.mkdtemp()
def write(name, text):
    name = os.path.join(d, name)
    with open(name, 'w') as f:
        f.write(text)
    return name
'''

plant('C02-function-id', 'C02', 'converter.py', [(
'''        dvf_node = record.nodedict(tset.tableDiscreteVulnerability)
''', '''        dvf_node = dict(
            (rec['vulnerabilityFunctionID'], rec.to_node())
            for rec in tset.tableDiscreteVulnerability)
'''), (
'''            dvf = dvf_node[set_id, vf_id]
''', '''            dvf = dvf_node[vf_id]
''')], 'the same function identifier in two vulnerability sets',
'functions with the same identifier in different sets are mixed up',
CSV + '''
try:
    conv = converter.Converter.from_nrml(write('v.xml', vuln(
        vset('S1', ('F', '0.1 0.2')), vset('S2', ('F', '0.3 0.4')))))
    node = conv.to_node()
    got = [f.lossRatio.text for s in node for f in s.getnodes('discreteVulnerability')]
    assert got == ['0.1 0.2', '0.3 0.4'], got
finally:
    shutil.rmtree(d)
''')

plant('C06-dotted-name', 'C06', 'csvmanager.py', [(
'''        prefix = os.path.basename(fname)[:-4]
''', '''        prefix = os.path.basename(fname).split('.')[0]
''')], 'a NRML file with a dot in its name, as model.v2.xml',
'the archive files lose the part of the name after the first dot',
CSV + '''
try:
    man = M.CSVManager(M.MemArchive([]))
    man.convert_from_nrml(write('model.v2.xml', vuln(vset('S1', ('F', '0.1 0.2')))))
    names = sorted(man.archive.extract_filenames())
    assert names[0] == 'model.v2__DiscreteVulnerability.csv', names
finally:
    shutil.rmtree(d)
''')

plant('A01-prefix-inside', 'A01', 'csvmanager.py', [(
'''        return [f for f in self.dic if f.startswith(prefix)]
''', '''        return [f for f in self.dic if prefix in f]
''')], 'a memory archive with a file whose name has the prefix in the middle',
'the files which contain the prefix anywhere are listed',
CSV + '''
shutil.rmtree(d)
a = M.MemArchive([('ab.csv', 'x'), ('cab.csv', 'y')])
assert a.extract_filenames('ab') == ['ab.csv'], a.extract_filenames('ab')
''')

plant('A02-limit-zero', 'A02', 'csvmanager.py', [(
'''        if limit is None:
            return list(it)  # return all
''', '''        if not limit:
            return list(it)  # return all
''')], 'a limit of zero errors',
'all the errors are returned when the limit is zero',
CSV + '''
shutil.rmtree(d)
a = M.MemArchive([('p__Location.csv', 'id,lon,lat\\n1,200,0\\n2,0,100\\n')])
assert len(M.CSVManager(a).find_invalid(1)) == 1
assert M.CSVManager(a).find_invalid(0) == []
''')

