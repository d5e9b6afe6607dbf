"""Planted bugs, fifth round"""
from plant import plant

TAB = '''
from openquake.commonlib import converter, record, records
def tables(conv, *rows):
    tset = record.TableSet(getattr(converter, conv))
    for row in rows:
        tset.insert(getattr(records, row[0])(*row[1:]))
    return tset
def use(node):
    for n in node.nodes:
        use(n)
    return node
def refused(conv, *rows):
    tset = tables(conv, *rows)
    try:
        node = use(tset.to_node())
    except Exception as e:
        return True
    return False
'''
V = TAB + '''
VUL = [('DiscreteVulnerabilitySet', 'S', 'buildings', 'x', 'PGA'),
       ('DiscreteVulnerability', 'S', 'F', 'LN')]
def data(*rows):
    return VUL + [('DiscreteVulnerabilityData', 'S', 'F') + r for r in rows]
assert not refused('Vulnerability', *data(('0.1', '0.2', '0'), ('0.2', '0', '0')))
'''

plant('C04-sorted-levels', 'C04', 'converter.py', [(
'''                imt, map(float, imls), map(float, ratios), map(float, coeffs))
''', '''                imt, sorted(map(float, imls)),
                map(float, ratios), map(float, coeffs))
''')], 'rows of a vulnerability function whose levels are not in increasing order',
'a function with decreasing levels is converted to a model which risk calculations refuse',
V + '''
assert refused('Vulnerability', *data(('0.2', '0.2', '0'), ('0.1', '0.3', '0')))
''')

plant('C04-without-coefficients', 'C04', 'converter.py', [(
'''                imt, map(float, imls), map(float, ratios), map(float, coeffs))
''', '''                imt, map(float, imls), map(float, ratios))
''')], 'a loss ratio of zero with a positive coefficient of variation',
'a function which risk calculations refuse is converted',
V + '''
assert refused('Vulnerability', *data(('0.1', '0', '0.3'), ('0.2', '0.3', '0')))
''')

plant('C04-default-stddev', 'C04', 'converter.py', [(
'''                float(param['mean']), float(param['stddev']))
''', '''                float(param['mean']), float(param.get('stddev', 0)))
''')], 'a continuous function with the row of the mean only',
'a function without standard deviation is converted',
TAB + '''
F = [('FragilityContinuous', 'continuous', 'd', 'a'),
     ('FFLimitStateContinuous', 'a'),
     ('FFSetContinuous', '1', 'tax', '', '', 'PGA', 'g', '0.1', '2')]
mean = ('FFDataContinuous', 'a', '1', 'mean', '1')
assert not refused('FragilityContinuous', *F + [mean, ('FFDataContinuous', 'a', '1', 'stddev', '1')])
assert refused('FragilityContinuous', *F + [mean])
''')

plant('C04-unknown-location', 'C04', 'converter.py', [(
'''            location = loc_dict[(asset['location_id'],)]
            nodes.append(location)
''', '''            location = loc_dict.get((asset['location_id'],))
            if location is not None:
                nodes.append(location)
''')], 'an asset at a location which is not in the table of locations',
'the asset is converted without location',
TAB + '''
E = [('CostType', 'c', 'per_asset', 'EUR'),
     ('Exposure', 'e', 'buildings', 't', 'd'), ('Location', '1', '1', '2')]
assert not refused('Exposure', *E + [('Asset', '1', 'a', 't', '1')])
assert refused('Exposure', *E + [('Asset', '2', 'a', 't', '1')])
''')

plant('C04-unknown-set', 'C04', 'converter.py', [(
'''        gmfset_node = record.nodedict(tset.tableGmfSet)
        for (ses,''', '''        gmfset_node = record.nodedict(tset.tableGmfSet)
        known = set(gmfset_node)
        for (ses,'''), (
'''            if imt.startswith('SA'):
                attr = dict(''', '''            if (ses,) not in known:
                continue
            if imt.startswith('SA'):
                attr = dict(''')], 'values of a stochastic event set which is not in the table of the sets',
'the values are left out without a word',
TAB + '''
G = [('GmfCollection', 'a', 'b'), ('GmfSet', '1', '50')]
assert not refused('GmfCollection', *G + [('GmfData', '1', 'PGA', 'r', '0', '0', '1')])
assert refused('GmfCollection', *G + [('GmfData', '2', 'PGA', 'r', '0', '0', '1')])
''')

ARC = '''
import os, shutil, tempfile, zipfile
from openquake.commonlib import csvmanager as M, record, records
d = tempfile.mkdtemp()
def done():
    shutil.rmtree(d)
def arcs():
    yield M.MemArchive([])
    os.mkdir(d + '/x')
    yield M.DirArchive(d + '/x', 'r')
    yield M.ZipArchive(d + '/x.zip', 'a')
'''

plant('A01-empty-in-zip', 'A01', 'csvmanager.py', [(
'''        self.fileobj.seek(0)  # this is essential
        self.arczip.write(self.tempname, self.name)  # save in the archive
''', '''        if self.fileobj.tell():  # something was written
            self.fileobj.seek(0)  # this is essential
            self.arczip.write(self.tempname, self.name)  # save in the archive
''')], 'a file of a zip archive in which nothing is written',
'an empty file is not in a zip archive', ARC + '''
try:
    for arc in arcs():
        for name, text in (('a', 'abc'), ('b', '')):
            with arc.open(name, 'w') as f:
                f.write(text)
            assert name in arc, (arc, name)
            g = arc.open(name)
            assert g.read() == text
            g.close()
finally:
    done()
''')

plant('A01-universal-newlines', 'A01', 'csvmanager.py', [(
'''        return open(pathname, mode)
''', '''        return open(pathname, 'rU' if mode == 'r' else mode)
''')], 'a file of a directory with carriage returns in it',
'carriage returns are read back as newlines', ARC + '''
try:
    for arc in arcs():
        for text in ('a\\n', 'a\\r\\nb\\r\\n', 'a\\rb'):
            name = 'f%d' % len(text)
            with arc.open(name, 'w') as f:
                f.write(text)
            f = arc.open(name)
            got = f.read()
            f.close()
            assert got == text, (arc, got)
finally:
    done()
''')

plant('A02-only-limit-of-each', 'A02', 'csvmanager.py', [(
'''                    for invalid in record.find_invalid(recorditer):
                        invalid.fname = fname
                        yield invalid
''', '''                    name = None
                    for invalid in record.find_invalid(recorditer):
                        if name is None:  # the first one tells the file
                            name = invalid.fname = fname
                        yield invalid
''')], 'two invalid records in the same file',
'the errors after the first one of a file do not name the file', ARC + '''
try:
    arc = M.MemArchive([('p__Location.csv', 'id,lon,lat\\n1,x,0\\n2,0,y\\n3,1,1\\n')])
    got = map(str, M.CSVManager(arc).find_invalid())
    assert len(got) == 2
    assert all(g.startswith('p__Location.csv[') for g in got), got
finally:
    done()
''')

plant('A03-header-spaces', 'A03', 'csvmanager.py', [(
'''            if header != recordtype.fieldnames:
''', '''            if [h.strip() for h in header] != recordtype.fieldnames:
''')], 'a header with spaces around the names',
'a header different from the names of the fields is accepted', ARC + '''
try:
    for header, ok in (('id,lon,lat', True), ('lon,id,lat', False), ('id, lon,lat', False)):
        arc = M.MemArchive([('p__Location.csv', header + '\\n1,2,3\\n')])
        try:
            got = list(M.CSVManager(arc, 'p').read(records.Location))
            assert ok, header
        except M.InvalidFile:
            assert not ok, header
finally:
    done()
''')

plant('A03-prefix-from-left', 'A03', 'csvmanager.py', [(
'''                man.convertertype = ct[recordtype.convertername]
                managers[prefix] = man
''', '''                man.convertertype = ct[recordtype.convertername]
                managers[prefix.lower()] = man
''')], 'two groups of files whose prefixes contain capital letters',
'a group with capital letters in its prefix is found once per file', ARC + '''
try:
    texts = [('DiscreteVulnerabilitySet', 'vulnerabilitySetID,assetCategory,lossCategory,IMT\\nS,buildings,x,PGA\\n'),
             ('DiscreteVulnerability', 'vulnerabilitySetID,vulnerabilityFunctionID,probabilisticDistribution\\nS,F,LN\\n'),
             ('DiscreteVulnerabilityData', 'vulnerabilitySetID,vulnerabilityFunctionID,IML,lossRatio,coefficientsVariation\\nS,F,0.1,0.5,0\\n')]
    for prefix in ('p', 'A'):
        arc = M.MemArchive([('%s__%s.csv' % (prefix, n), t) for n, t in texts])
        assert len(M.CSVManager(arc)._getmanagers()) == 1
        names = M.CSVManager(arc).convert_to_nrml()
        assert names == [prefix + '.xml'], names
    arc = M.MemArchive([('%s__%s.csv' % (prefix, n), t) for n, t in texts for prefix in ('A', 'a')])
    names = M.CSVManager(arc).convert_to_nrml()
    assert sorted(names) == ['A.xml', 'a.xml'], names
finally:
    done()
''')

plant('A04-stripped-text', 'A04', 'csvmanager.py', [(
'''    archive = MemArchive([(name, csvstr)])
''', '''    archive = MemArchive([(name, csvstr.strip())])
''')], 'a CSV text that starts or ends with a space which belongs to a cell',
'spaces of the first and last cell of a text are lost', ARC + '''
try:
    assert list(M.create_table(records.Location, '1,2,3\\n')[0]) == ['1', '2', '3']
    t = M.create_table(records.CostType, 'a,b,c,d,e\\n x,y,z, , ')
    assert [list(r) for r in t] == [list('abcde'), [' x', 'y', 'z', ' ', ' ']], map(list, t)
    t = M.create_table(records.CostType, ' x,y,z, , \\n')
    assert [list(r) for r in t] == [[' x', 'y', 'z', ' ', ' ']], map(list, t)
finally:
    done()
''')

plant('C06-converted-anyway', 'C06', 'bin/NRMLconvert.py', [(
'''    print_invalid(man, limit)
    out_archive = mkarchive(output, 'a') if output else inp_archive
    create(lambda n: man.convert_to_nrml(out_archive), os.path.basename(input))
''', '''    out_archive = mkarchive(output, 'a') if output else inp_archive
    create(lambda n: man.convert_to_nrml(out_archive), os.path.basename(input))
    print_invalid(man, limit)
''')], 'the command line program run on an archive with invalid records',
'a model with invalid records is written before the error is given', '''
import imp, os, shutil, sys, tempfile
mod = imp.load_source('NRMLconvert', os.path.join(os.getcwd(), 'bin/NRMLconvert.py'))
d = tempfile.mkdtemp()
try:
    for lon, names in (('9', ['p.xml']), ('999', [])):
        for name, text in (
                ('CostType', 'name,type,unit,retrofittedType,retrofittedUnit\\n'),
                ('Exposure', 'id,category,taxonomySource,description,area_type,area_unit,deductible_is_absolute,insurance_limit_is_absolute\\ne,population,s,d,,,,\\n'),
                ('Location', 'id,lon,lat\\n1,%s,1\\n' % lon),
                ('Asset', 'location_id,asset_ref,taxonomy,number,area\\n1,a,t,1,\\n')):
            with open(os.path.join(d, 'p__%s.csv' % name), 'w') as f:
                f.write(text)
        try:
            mod.main(d)
            assert names
        except SystemExit:
            assert not names
        got = [n for n in os.listdir(d) if n.endswith('.xml')]
        assert got == names, got
        for n in os.listdir(d):
            os.remove(os.path.join(d, n))
finally:
    shutil.rmtree(d)
''')

PARA = '''
import os, operator
os.environ['OQ_NO_DISTRIBUTE'] = '1'
from openquake.commonlib import parallel
'''

plant('P01-accumulator-none', 'P01', 'parallel.py', [(
'''            res = agg(acc, val)
            log_percent.next()
            return res
''', '''            res = agg(acc, val)
            log_percent.next()
            return acc if res is None else res
''')], 'an aggregation function that returns None',
'what the aggregation returned is not passed on when it is None', PARA + '''
def f(x):
    return x
got = []
def agg(acc, x):
    got.append(acc)
    return None if x == 2 else x
assert parallel.map_reduce(f, [(1,), (2,), (3,)], agg, 0) == 3
assert got == [0, 1, None], got
''')

plant('P01-same-arguments', 'P01', 'parallel.py', [(
'''    for args in function_args:
        tm.submit(*args)
''', '''    prev = None
    for args in function_args:
        if args is prev:  # already submitted
            tm.results.append(tm.results[-1])
        else:
            tm.submit(*args)
        prev = args
''')], 'the same tuple of arguments twice in a row',
'the function is called once for two equal consecutive arguments', PARA + '''
calls = []
def f(x):
    calls.append(x)
    return x
one = (1,)
assert parallel.map_reduce(f, [one, (2,), one], operator.add, 0) == 4
assert parallel.map_reduce(f, [one, one], operator.add, 0) == 2
assert calls == [1, 2, 1, 1, 1], calls
''')

plant('P02-exit', 'P02', 'parallel.py', [(
'''        args = [a.unpickle() for a in args]
    try:
''', '''        args = [a.unpickle() if len(a) else a for a in set(args)]
    try:
''')], 'a pickled argument which is given twice',
'repeated pickled arguments are passed once', PARA + '''
P = parallel.Pickled
def f(*args):
    return sum(args)
assert parallel.safely_call(f, [P(1)], True).unpickle() == (1, None)
p = P(5)
assert parallel.safely_call(f, [p, p], True).unpickle() == (10, None)
''')

plant('P03-rounded', 'P03', 'parallel.py', [(
'''        percent = int(float(done) / todo * 100)
''', '''        percent = int(round(float(done) / todo * 100))
''')], 'more than 200 tasks, or a percentage with a fractional part above one half',
'100% is reported before the last task is done', '''
from openquake.commonlib import parallel
def run(n):
    got = []
    gen = parallel.log_percent_gen('t', n, lambda msg, *args: got.append(msg % args))
    for i in range(n + 1):
        assert gen.next() == i
    return got
assert len(run(4)) == 5
for n in (100, 300):
    assert len([g for g in run(n) if '100%' in g]) == 1, n
''')

plant('P04-zero-pid', 'P04', 'parallel.py', [(
'''        self.mem = [m2 - m1 for m1, m2 in zip(start_mem, self.stop_mem)]
''', '''        self.mem = [max(m2 - m1, 0) for m1, m2 in zip(start_mem, self.stop_mem)]
''')], 'a process which uses less memory at the end of the block',
'the memory given back is not measured', '''
from openquake.commonlib import parallel
class Proc(object):
    def __init__(self, *rss):
        self.left = list(rss)
    def get_memory_info(self):
        self.rss = self.left.pop(0)
        return self
class Mon(parallel.PerformanceMonitor):
    def on_exit(self):
        pass
for a, b in ((10, 30), (30, 10)):
    mon = Mon()
    mon._procs = [Proc(a, b)]
    with mon:
        pass
    assert mon.mem == [b - a], mon.mem
''')

GEN = '''
from openquake.commonlib import general as G
WS = G.WeightedSequence
'''

plant('G01-add-shares', 'G01', 'general.py', [(
'''        new._seq.extend(self._seq)
        new._seq.extend(other._seq)
''', '''        new._seq.extend(self._seq)
        if other is not self:
            new._seq.extend(other._seq)
''')], 'a weighted sequence added to itself',
'the items are in the sum once, with the weight of two', GEN + '''
a = WS([('x', 1), ('y', 2)])
b = WS([('z', 4)])
assert list(a + b) == ['x', 'y', 'z'] and (a + b).weight == 7
assert list(a + a) == ['x', 'y'] * 2 and (a + a).weight == 6
''')

plant('G01-equal-weight', 'G01', 'general.py', [(
'''        return self.weight < other.weight
''', '''        return (self.weight, len(self)) < (other.weight, len(other))
''')], 'two sequences of the same weight and of different lengths',
'the ordering depends on the length also', GEN + '''
assert WS([('x', 1)]) < WS([('x', 2)])
a, b = WS([('x', 2)]), WS([('x', 1), ('y', 1)])
assert not a < b and not b < a
''')

plant('G02-first-too-heavy', 'G02', 'general.py', [(
'''        elif ws.weight + w > max_weight or k != prev_kind:
''', '''        elif (ws.weight + w > max_weight and w <= max_weight) or (
                k != prev_kind) or not ws:
''')], 'an item heavier than the maximum after lighter ones of the same kind',
'an item heavier than the maximum is added to the block of the previous one', GEN + '''
def split(ws, m):
    return [list(b) for b in G.block_splitter(ws, m, lambda w: w)]
assert split([1, 2, 2, 1], 3) == [[1, 2], [2, 1]]
assert split([5, 1, 1], 3) == [[5], [1, 1]]
assert split([1, 5, 1], 3) == [[1], [5], [1]], split([1, 5, 1], 3)
''')

plant('G03-weight-of-sample', 'G03', 'general.py', [(
'''    total_weight = float(sum(weight(item) for item in items))
''', '''    total_weight = float(sum(weight(item) for item in distinct(items)))
''')], 'a sequence with repeated items',
'repeated items count once in the total weight', GEN + '''
assert len(list(G.split_in_blocks('ABCD', 2))) == 2
assert map(list, G.split_in_blocks('AAAB', 2)) == [['A', 'A'], ['A', 'B']]
''')

plant('G05-hashable-order', 'G05', 'general.py', [(
'''    return value.lower() in ("true", "yes", "t", "1")
''', '''    return value.strip().lower() in ("true", "yes", "t", "1")
''')], 'a text such as " true" or "1" and a newline',
'texts with spaces around a true word are true', GEN + '''
assert G.str2bool('True') and G.str2bool('1') and not G.str2bool('no')
assert not G.str2bool('true\\n') and not G.str2bool(' 1')
''')

plant('G05-unicode-length', 'G05', 'general.py', [(
'''    if content:
        fh = os.fdopen(fh, "w")
''', '''    if content and content.strip():
        fh = os.fdopen(fh, "w")
''')], 'a temporary file whose content is white space only',
'the file is empty', GEN + '''
import os, shutil, tempfile
d = tempfile.mkdtemp()
try:
    for text in ('abc', '\\n', ' '):
        assert open(G.writetmp(text, d)).read() == text, repr(text)
finally:
    shutil.rmtree(d)
''')
