"""Planted bugs, sixth round"""
from plant import plant

V = 'from openquake.commonlib import valid\n'
REC = '''
from openquake.commonlib import record, records, valid
class R(record.Record):
    pkey = record.Unique('a')
    a = record.Field(int)
    b = record.Field(valid.not_empty)
'''

BRS = '''
from decimal import Decimal
from openquake.commonlib import logictree as L
def bset(*branches):
    bs = L.BranchSet('bGRRelative', {})
    bs.branches = [L.Branch(i, Decimal(w), i) for i, w in branches]
    return bs
'''
TS = '''
from openquake.commonlib import records, record, converter
def refused(ts, *recs):
    try:
        ts.insert_all(recs)
    except KeyError:
        return True
    return False
'''

plant('V01-large-integer', 'V01', 'valid.py', [(
'''    i = int(text)
    if i < 0:
        raise ValueError('integer %d < 0' % i)
    return i
''', '''    i = int(text)
    if i < 0:
        raise ValueError('integer %d < 0' % i)
    return int(float(i))
''')], 'an integer above 2 ** 53', 'the last digits of large integers are lost', V + '''
for n in (0, 7, 10 ** 6, 2 ** 53 + 1):
    assert valid.positiveint(str(n)) == n, n
''')

plant('V01-zero-none', 'V01', 'valid.py', [(
'''        if value == '':
            return None
        return self.cast(value)
''', '''        return self.cast(value) or None if value else None
''')], 'a zero in a field which may be empty', 'zero is read as nothing', V + '''
f = valid.NoneOr(valid.positivefloat)
assert f('1') == 1 and f('') is None
assert f('0') == 0.0, f('0')
''')

plant('V03-empty-period', 'V03', 'valid.py', [(
r'''    mo = re.match(r'(?:PGA|PGV|PGD|IA|RSD|MMI|SA\((\d+\.?\d*)\))\Z', text)
''', r'''    mo = re.match(r'(?:PGA|PGV|PGD|IA|RSD|MMI|SA\((\d*\.?\d*)\))\Z', text)
''')], 'a spectral acceleration with an empty period, or one without integer part',
'SA() is accepted as a measure without period', V + '''
assert valid.IMTstr('SA(0.1)') == ('SA', .1, 5.)
try:
    got = valid.IMTstr('SA()')
except ValueError:
    pass
else:
    raise AssertionError(got)
''')

plant('R01-constraint-first', 'R01', 'record.py', [(
'''            return all(self.is_valid(i) for i in range(len(self))) and all(
                constraint(self) for constraint in self._constraints)
''', '''            return all(constraint(self) for constraint in self._constraints
                       ) and all(self.is_valid(i) for i in range(len(self)))
''')], 'a record with an invalid field used by a constraint of its type',
'asking whether the record is valid raises ValueError', REC + '''
R.add_check(lambda rec: rec.a > 3)
assert R('4', 'x').is_valid() and not R('1', 'x').is_valid()
assert R('x', 'x').is_valid() is False
''')

plant('R01-stale-validity', 'R01', 'record.py', [(
'''        if i is None:
            return all(self.is_valid(i) for i in range(len(self))) and all(
                constraint(self) for constraint in self._constraints)
        i = self''', '''        if i is None:
            if getattr(self, '_invalid', False):
                return False
            ok = all(self.is_valid(i) for i in range(len(self))) and all(
                constraint(self) for constraint in self._constraints)
            self._invalid = not ok
            return ok
        i = self''')], 'an invalid record which is corrected after its validity was asked',
'the record stays invalid', REC + '''
r = R('x', 'y')
r['a'] = '1'
assert r.is_valid()
r = R('x', 'y')
assert not r.is_valid()
r['a'] = '1'
assert r.is_valid()
''')

plant('R02-empty-unchecked', 'R02', 'record.py', [(
'''        self.fields[i].cast(value)
        self.row[i] = value
''', '''        if value:  # there is nothing to cast in the empty string
            self.fields[i].cast(value)
        self.row[i] = value
''')], 'the empty text written in a field that does not accept it',
'the write is not refused', REC + '''
r = R('1', 'y')
for k, v in (('a', 'x'), ('a', ''), ('b', '')):
    try:
        r[k] = v
    except ValueError:
        assert list(r) == ['1', 'y']
    else:
        raise AssertionError((k, v))
''')

plant('R02-written-first', 'R02', 'record.py', [(
'''        self.fields[i].cast(value)
        self.row[i] = value
''', '''        old, self.row[i] = self.row[i], value
        if not self.is_valid(i):
            self.row[i] = old
            self.fields[i].cast(value)
''')], 'a field whose cast raises something else than ValueError',
'the text which was refused is left in the record', REC + '''
def strange(text):
    if text == 'boom':
        raise KeyError(text)
    return text
class S(record.Record):
    pkey = record.Unique('a')
    a = record.Field(strange)
s = S('x')
s['a'] = 'y'
try:
    s['a'] = 'boom'
except KeyError:
    pass
assert list(s) == ['y'], list(s)
''')

plant('R04-repeated-rows', 'R04', 'record.py', [(
'''    for rowno, rec in enumerate(recordiiter):
'''.replace('recordiiter', 'recorditer') + '''        row, exc = rec.cast()
''', '''    seen = {}  # the same rows have the same errors
    for rowno, rec in enumerate(recorditer):
        key = type(rec), tuple(rec)
        if key not in seen:
            seen[key] = rec.cast()
        row, exc = seen[key]
''')], 'two invalid records with the same texts',
'the first error changes its row number when the second one is found', REC + '''
recs = [R('x', 'b'), R('1', 'b'), R('y', 'b')]
assert [e.rowno for e in record.find_invalid(recs)] == [0, 2]
recs = [R('x', 'b'), R('1', 'b'), R('x', 'b')]
assert [e.rowno for e in list(record.find_invalid(recs))] == [0, 2]
''')

plant('R05-ratio-range', 'R05', 'records.py', [(
'''    lossRatio = Field(float)
''', '''    lossRatio = Field(valid.probability)
''')], 'a loss ratio above one', 'loss ratios above one are refused', '''
from openquake.commonlib import records
for ratio in ('0.5', '1.5'):
    assert records.DiscreteVulnerabilityData('s', 'f', '1', ratio, '0').is_valid(), ratio
''')

plant('R05-set-number', 'R05', 'records.py', [(
'''    pkey = Unique('stochasticEventSetId')

    stochasticEventSetId = Field(int)
''', '''    pkey = Unique('stochasticEventSetId')

    stochasticEventSetId = Field(valid.positiveint)
''')], 'a stochastic event set with a negative number', 'negative numbers are refused', '''
from openquake.commonlib import records
for n in ('0', '-1'):
    assert records.GmfSet(n, '').is_valid(), n
''')

plant('L01-shared-path', 'L01', 'logictree.py', [(
'''        for path in self._enumerate_paths([]):
            flat_path = []
            weight = Decimal('1.0')
            while path:
                path, branch = path
                weight *= branch.weight
                flat_path.append(branch)
            yield weight, flat_path[::-1]
''', '''        for path in self._enumerate_paths(self.path):
            weight = Decimal('1.0')
            for branch in path:
                weight *= branch.weight
            yield weight, list(path)
'''), (
'''            path = [prefix_path, branch]
            if''', '''            path = prefix_path
            path.append(branch)
            if'''), (
'''            else:
                yield path

    def get_branch''', '''            else:
                yield path
            path.pop()

    def get_branch'''), (
'''        self.branches = []
        self.uncertainty_type = uncertainty_type
''', '''        self.branches = []
        self.path = []  # the path being enumerated
        self.uncertainty_type = uncertainty_type
''')], 'a tree iterated again while, or after, an iteration which was not finished',
'the paths of the second iteration begin with those of the first', BRS + '''
def ids(it):
    return [[b.branch_id for b in path] for w, path in it]
bs = bset(('a', '0.5'), ('b', '0.5'))
bs.branches[0].child_branchset = bset(('c', '0.5'), ('d', '0.5'))
want = [['a', 'c'], ['a', 'd'], ['b']]
assert ids(bs.enumerate_paths()) == want
assert ids(bs.enumerate_paths()) == want
it = bs.enumerate_paths()
it.next()
assert ids(bs.enumerate_paths()) == want
assert ids(it) == want[1:]
''')

plant('L03-single-branch', 'L03', 'logictree.py', [(
'''    diceroll = rnd.random()
    acc = 0
''', '''    if len(branches) == 1:
        return branches[0]
    diceroll = rnd.random()
    acc = 0
''')], 'a level with one branch followed by levels with several',
'no number is drawn for the level, so the sample of a seed is another one', BRS + '''
import random
class T(L.SourceModelLogicTree):
    def __init__(self):
        self.seed, self.num_samples = 42, 50
        self.root_branchset = bset(('a', '1'))
        self.root_branchset.branches[0].child_branchset = bset(('c', '0.5'), ('d', '0.5'))
rnd = random.Random(42)
want = []
for i in range(50):
    rnd.random()
    want.append(('a', 'c' if rnd.random() <= .5 else 'd'))
assert [r.lt_path for r in T()] == want
''')

plant('L03-shuffled-samples', 'L03', 'logictree.py', [(
'''    subsequence = []
    for _ in xrange(num_samples):
        subsequence.append(sample_one(weighted_objects, rnd))
    return subsequence
''', '''    subsequence = []
    for _ in xrange(num_samples):
        obj = sample_one(weighted_objects, rnd)
        if len(subsequence) < len(weighted_objects) and obj in subsequence:
            obj = sample_one(weighted_objects, rnd)  # improve the variety
        subsequence.append(obj)
    return subsequence
''')], 'a sample of several objects in which one is drawn twice',
'frequent objects come out less often than their weight', BRS + '''
class Rnd(object):
    def __init__(self, *nums):
        self.nums = list(nums)
    def random(self):
        return self.nums.pop(0)
b = bset(('a', '0.5'), ('b', '0.5')).branches
assert [x.branch_id for x in L.sample(b, 2, Rnd(.1, .9))] == ['a', 'b']
assert [x.branch_id for x in L.sample(b, 2, Rnd(.1, .2, .9))] == ['a', 'a']
''')

GMPE = '''
from openquake.commonlib import logictree as L
def bset(typ, branches, n=[0], **attrs):
    n[0] += 1
    return '<logicTreeBranchSet uncertaintyType="%s" branchSetID="bs%d" %s>%s</logicTreeBranchSet>' % (
        typ, n[0], ' '.join('%s="%s"' % i for i in attrs.items()),
        ''.join('<logicTreeBranch branchID="%s"><uncertaintyModel>%s</uncertaintyModel>'
                '<uncertaintyWeight>%s</uncertaintyWeight></logicTreeBranch>' % b
                for b in branches))
def tree(*levels):
    return ('<nrml xmlns="http://openquake.org/xmlns/nrml/0.4"><logicTree logicTreeID="lt">%s</logicTree></nrml>'
            % ''.join('<logicTreeBranchingLevel branchingLevelID="l%d">%s</logicTreeBranchingLevel>'
                      % (i, ''.join(l)) for i, l in enumerate(levels)))
'''
plant('L05-part-of-type', 'L05', 'logictree.py', [(
'''        self.tectonic_region_types = frozenset(tectonic_region_types)
''', '''        self.tectonic_region_types = frozenset(
            trt.strip().title() for trt in tectonic_region_types)
''')], 'a known tectonic region type not written in title case',
'the branchset of the type is skipped', GMPE + '''
for trt in ('Volcanic', 'Subduction IntraSlab'):
    xml = tree([bset('gmpeModel', [('b', 'SadighEtAl1997', '1')], applyToTectonicRegionType=trt)])
    t = L.GMPELogicTree([trt], xml, '.', 'lt.xml', validate=False)
    assert t.make_trt_to_gsim(['b']).keys() == [trt]
''')

plant('L05-second-level-weight', 'L05', 'logictree.py', [(
'''            [branch] = sample(branchset.branches, 1, rnd)
''', '''            [branch] = sample(
                sorted(branchset.branches, key=lambda b: b.weight), 1, rnd)
''')], 'a level whose branches are not written in order of increasing weight',
'another branch is drawn for the same seed: the order of the tree is not followed', GMPE + '''
import random
def sample(*ws):
    xml = tree([bset('gmpeModel', [('b%d' % i, 'SadighEtAl1997', w) for i, w in enumerate(ws)],
                     applyToTectonicRegionType='Volcanic')])
    t = L.GMPELogicTree(['Volcanic'], xml, '.', 'lt.xml', validate=False, seed=7, num_samples=40)
    got = [r.lt_path[0] for r in t]
    rnd = random.Random(7)
    assert got == ['b0' if rnd.random() <= float(ws[0]) else 'b1' for _ in range(40)]
sample('0.25', '0.75')
sample('0.75', '0.25')
''')

INI = '''
import os, shutil, tempfile
from openquake.commonlib import readini
d = tempfile.mkdtemp()
def parse(text, **files):
    for name, content in files.items():
        with open(os.path.join(d, name), 'w') as f:
            f.write(content)
    with open(os.path.join(d, 'job.ini'), 'w') as f:
        f.write(text)
    with open(os.path.join(d, 'job.ini')) as f:
        return readini.parse_config(f)
'''
plant('I01-site-digits', 'I01', 'readini.py', [(
'''        coords.append('%s %s' % (lon, lat))
''', '''        coords.append('%s %s' % (float(lon), float(lat)))
''')], 'sites with more digits than twelve', 'the coordinates are rounded', INI + '''
try:
    got = parse('[x]\\nsites_csv = sites\\n', sites='1.5,2.5\\n3.0,4.0\\n')['sites']
    assert got == 'MULTIPOINT(1.5 2.5, 3.0 4.0)', got
    got = parse('[x]\\nsites_csv = sites\\n', sites='1.12345678901234,2.5\\n')['sites']
    assert got == 'MULTIPOINT(1.12345678901234 2.5)', got
finally:
    shutil.rmtree(d)
''')

plant('I01-last-file-of-type', 'I01', 'readini.py', [(
'''                params['inputs'][input_type] = path
''', '''                if path not in params['inputs'].values():
                    params['inputs'][input_type] = path
''')], 'two parameters naming the same file', 'the second input is missing', INI + '''
try:
    inputs = parse('[x]\\na_file = f\\nb_file = g\\n')['inputs']
    assert sorted(inputs) == ['a', 'b']
    inputs = parse('[x]\\na_file = f\\nb_file = f\\n')['inputs']
    assert sorted(inputs) == ['a', 'b'], inputs
finally:
    shutil.rmtree(d)
''')

plant('I02-same-name', 'I02', 'readini.py', [(
'''    return sorted(set(src_paths))
''', '''    return sorted(dict((os.path.basename(p), p) for p in src_paths).values())
''')], 'two source models with the same name in different directories',
'one of them is missing', '''
import os, shutil, tempfile
from openquake.commonlib import readini
d = tempfile.mkdtemp()
def paths(*names):
    lt = os.path.join(d, 'lt.xml')
    with open(lt, 'w') as f:
        f.write('<nrml xmlns="http://openquake.org/xmlns/nrml/0.4">'
            '<logicTree logicTreeID="l"><logicTreeBranchingLevel branchingLevelID="bl">'
            '<logicTreeBranchSet uncertaintyType="sourceModel" branchSetID="bs">' + ''.join(
            '<logicTreeBranch branchID="b"><uncertaintyModel>' + name +
            '</uncertaintyModel><uncertaintyWeight>1</uncertaintyWeight>'
            '</logicTreeBranch>' for name in names) + '</logicTreeBranchSet></logicTreeBranchingLevel>'
            '</logicTree></nrml>')
    return readini._collect_source_model_paths(lt)
try:
    assert paths('a.xml', 'b.xml', 'a.xml') == ['a.xml', 'b.xml']
    assert paths('m/a.xml', 'n/a.xml') == ['m/a.xml', 'n/a.xml']
finally:
    shutil.rmtree(d)
''')

RISK = '''
import os, shutil, tempfile
from openquake.commonlib import riskloaders
d = tempfile.mkdtemp()
def write(name, text):
    name = os.path.join(d, name)
    with open(name, 'w') as f:
        f.write('<nrml xmlns="http://openquake.org/xmlns/nrml/0.4">%s</nrml>' % text)
    return name
def vset(imt, *taxs):
    return """<discreteVulnerabilitySet vulnerabilitySetID="s%s"
assetCategory="population" lossCategory="x"><IML IMT="%s">0.1 0.2</IML>%s
</discreteVulnerabilitySet>""" % (imt, imt, "".join("""<discreteVulnerability
vulnerabilityFunctionID="%s" probabilisticDistribution="LN">
<lossRatio>0.1 0.2</lossRatio><coefficientsVariation>0 0</coefficientsVariation>
</discreteVulnerability>""" % t for t in taxs))
def vuln(*sets):
    return '<vulnerabilityModel><config/>%s</vulnerabilityModel>' % ''.join(sets)
FRAG = """<fragilityModel format="discrete"><description>d</description>
<limitStates>%s</limitStates><ffs noDamageLimit="%s"><taxonomy>T1</taxonomy>
<IML IMT="PGA" imlUnit="g">0.1 0.2</IML>%s</ffs></fragilityModel>"""
def frag(limit, *states):
    return FRAG % (' '.join(states), limit, ''.join(
        '<ffd ls="%s"><poEs>0.3 0.4</poEs></ffd>' % s for s in states))
'''
plant('K01-per-measure', 'K01', 'riskloaders.py', [(
'''        if taxonomy in vfs:
            raise''', '''        if taxonomy in vfs and vfs[taxonomy].imt == imt:
            raise''')],
'a model with two functions of the same taxonomy for different measures',
'the second function replaces the first', RISK + '''
def load(*sets):
    return dict(riskloaders.get_taxonomy_vfs(
        {'structural_vulnerability': write('v.xml', vuln(*sets))}, ['structural']))
try:
    assert sorted(load(vset('PGA', 'A'), vset('PGV', 'B'))) == ['A', 'B']
    for sets in ([vset('PGA', 'A', 'A')], [vset('PGA', 'A'), vset('PGV', 'A')]):
        try:
            load(*sets)
        except ValueError:
            pass
        else:
            raise AssertionError(sets)
finally:
    shutil.rmtree(d)
''')

plant('K01-shared-by-file', 'K01', 'riskloaders.py', [(
'''        for tax, vf in _get_vulnerability_functions(inputs[key]).iteritems():
            vulnerability_functions[tax].append((loss_type, vf))
''', '''        fname = inputs.get(loss_type + '_vulnerability', inputs[key])
        for tax, vf in _get_vulnerability_functions(fname).iteritems():
            vulnerability_functions[tax].append((loss_type, vf))
''')], 'retrofitted models where the original models are among the inputs too',
'the original functions are loaded for the retrofitted ones', RISK + '''
try:
    inputs = {'structural_vulnerability_retrofitted': write('r.xml', vuln(vset('PGA', 'R')))}
    assert dict(riskloaders.get_taxonomy_vfs(inputs, ['structural'], True)).keys() == ['R']
    inputs['structural_vulnerability'] = write('v.xml', vuln(vset('PGA', 'V')))
    assert dict(riskloaders.get_taxonomy_vfs(inputs, ['structural'])).keys() == ['V']
    assert dict(riskloaders.get_taxonomy_vfs(inputs, ['structural'], True)).keys() == ['R']
finally:
    shutil.rmtree(d)
''')

plant('K02-inserted-limit', 'K02', 'riskloaders.py', [(
'''                        [no_damage_limit] + iml['imls'], [0.0] + poes,
                        no_damage_limit)
''', '''                        sorted(set([no_damage_limit] + iml['imls'])),
                        [0.0] + poes, no_damage_limit)
''')], 'a limit for no damage greater than the first level',
'the levels do not correspond to the probabilities', RISK + '''
def load(limit):
    states, models = riskloaders.get_damage_states_and_risk_models(
        write('f.xml', frag(limit, 'a', 'b')))
    return [(list(f.imls), list(f.poes)) for f in models['T1'].workflow.fragility_functions['damage']]
try:
    assert load('0.05') == [([.05, .1, .2], [0, .3, .4])] * 2
    try:
        got = load('0.15')
    except (ValueError, AssertionError):
        pass
    else:
        assert got == [([.15, .1, .2], [0, .3, .4])] * 2, got
finally:
    shutil.rmtree(d)
''')

plant('K02-declared-order', 'K02', 'riskloaders.py', [(
'''    damage_states = ['no_damage'] + limit_states
''', '''    damage_states = ['no_damage'] + [
        ls for ls in limit_states if ls != 'no_damage']
''')], 'a model with a limit state called no_damage',
'the damage states do not correspond to the functions', RISK + '''
def load(*states):
    states, models = riskloaders.get_damage_states_and_risk_models(
        write('f.xml', frag('0.05', *states)))
    return states, len(models['T1'].workflow.fragility_functions['damage'])
try:
    assert load('a', 'b') == (['no_damage', 'a', 'b'], 2)
    assert load('no_damage', 'b') == (['no_damage', 'no_damage', 'b'], 2)
finally:
    shutil.rmtree(d)
''')

plant('S02-integer-rates', 'S02', 'source.py', [(
'''        new_occur_rates = [float(x) / num_points
                           for x in area_mfd.occurrence_rates]
''', '''        new_occur_rates = [x / num_points
                           for x in area_mfd.occurrence_rates]
''')], 'an area source with rates which are integers, not multiples of the number of points',
'the rates of the points do not add up to those of the area', '''
from openquake.commonlib import source
from openquake.hazardlib import mfd
class Mesh(object):
    lons = [1., 2.]
    lats = [3., 4.]
    def __len__(self):
        return 2
class Poly(object):
    def discretize(self, step):
        return Mesh()
class Area(object):
    polygon = Poly()
    def __getattr__(self, name):
        return None
def rates(*rs):
    a = Area()
    a.mfd = mfd.EvenlyDiscretizedMFD(min_mag=5., bin_width=1., occurrence_rates=list(rs))
    got = []
    class PS(object):
        def __init__(self, **kw):
            got.append(list(kw['mfd'].occurrence_rates))
    old = source.source.PointSource, source.geo.Point
    source.source.PointSource, source.geo.Point = PS, lambda *a: a
    try:
        list(source.area_to_point_sources(a, 10))
    finally:
        source.source.PointSource, source.geo.Point = old
    return got
assert rates(2, 4.5) == [[1, 2.25]] * 2
assert rates(3, 4) == [[1.5, 2]] * 2, rates(3, 4)
''')

plant('S02-same-object', 'S02', 'source.py', [(
'''            new_src = copy.copy(src)
            new_src.source_id = '%s-%s' % (src.source_id, i)
''', '''            if not i:
                new_src = copy.copy(src)
            new_src.source_id = '%s-%s' % (src.source_id, i)
''')], 'a fault with several magnitudes whose pieces are all kept',
'the pieces are all the same object, with the last magnitude', '''
from openquake.commonlib import source
from openquake.hazardlib import mfd
class S(object):
    source_id = 'x'
def split(*rates):
    s = S()
    s.mfd = mfd.EvenlyDiscretizedMFD(min_mag=5., bin_width=1., occurrence_rates=list(rates))
    return [p.source_id for p in list(source.split_fault_source(s))]
assert split(1.) == ['x-0']
assert split(1., 2.) == ['x-0', 'x-1'], split(1., 2.)
''')

plant('T03-value-in-key', 'T03', 'records.py', [(
'''    pkey = Unique('stochasticEventSetId', 'imtStr', 'ruptureId', 'lon', 'lat')
''', '''    pkey = Unique('stochasticEventSetId', 'imtStr', 'ruptureId', 'lon', 'lat',
                  'gmv')
''')], 'two values of the same ground motion field at the same place',
'both are accepted', TS + '''
D = records.GmfData
def ts():
    return record.TableSet(converter.GmfCollection)
assert not refused(ts(), D('1', 'PGA', 'r', '0', '0', '1'), D('1', 'PGA', 'r', '0', '1', '1'))
assert refused(ts(), D('1', 'PGA', 'r', '0', '0', '1'), D('1', 'PGA', 'r', '0', '0', '1'))
assert refused(ts(), D('1', 'PGA', 'r', '0', '0', '1'), D('1', 'PGA', 'r', '0', '0', '2'))
''')

plant('T03-param-alone', 'T03', 'records.py', [(
'''    pkey = Unique('limitState', 'ffs_ordinal', 'param')
''', '''    pkey = Unique('limitState', 'ffs_ordinal', 'param', 'value')
''')], 'two different means of the same continuous function', 'both are accepted', TS + '''
D = records.FFDataContinuous
def ts():
    return record.TableSet(converter.FragilityContinuous)
assert not refused(ts(), D('a', '1', 'mean', '1'), D('a', '1', 'stddev', '1'))
assert refused(ts(), D('a', '1', 'mean', '1'), D('a', '1', 'mean', '2'))
''')

CONV = '''
import os, shutil, tempfile
from openquake.commonlib import converter, record, records
NRML = '<nrml xmlns="http://openquake.org/xmlns/nrml/0.4">%s</nrml>'
d = tempfile.mkdtemp()
def convert(text):
    name = os.path.join(d, 'x.xml')
    with open(name, 'w') as f:
        f.write(NRML % text)
    return converter.Converter.from_nrml(name).to_node()
'''
plant('C02-levels-by-measure', 'C02', 'converter.py', [(
'''            imls = vset.IML.text.split()
            for vf in vset.''', '''            imls = levels.setdefault(vset.IML['IMT'], vset.IML.text.split())
            for vf in vset.'''), (
'''        """Convert the node into a sequence of Vulnerability records"""
''', '''        """Convert the node into a sequence of Vulnerability records"""
        levels = {}  # imt -> levels
''')], 'two sets with the same intensity measure type and different levels',
'the second set gets the levels of the first', CONV + '''
def vset(sid, imt, levels):
    return ("""<discreteVulnerabilitySet vulnerabilitySetID="%s"
assetCategory="population" lossCategory="x"><IML IMT="%s">%s</IML>
<discreteVulnerability vulnerabilityFunctionID="f%s" probabilisticDistribution="LN">
<lossRatio>0.1 0.2</lossRatio><coefficientsVariation>0 0</coefficientsVariation></discreteVulnerability>
</discreteVulnerabilitySet>""" % (sid, imt, levels, sid))
try:
    for imt in ('PGV', 'PGA'):
        node = convert('<vulnerabilityModel><config/>%s%s</vulnerabilityModel>' % (
            vset('a', 'PGA', '0.1 0.2'), vset('b', imt, '0.1 0.3')))
        assert [s.IML.text for s in node] == ['0.1 0.2', '0.1 0.3'], imt
finally:
    shutil.rmtree(d)
''')

plant('C03-type-without-limit', 'C03', 'records.py', [(
'''            node['noDamageLimit'] = ndl
        typ = self['type']
        if typ:
            node['type'] = typ
''', '''            node['noDamageLimit'] = ndl
            if self['type']:
                node['type'] = self['type']
''')], 'a continuous set with a type and without limit for no damage',
'the type is lost on the way back', '''
from openquake.commonlib import records
def node(limit, typ):
    return records.FFSetContinuous('1', 'tax', limit, typ, 'PGA', 'g', '0.1', '1').to_node().attrib
assert node('0.1', 'lognormal') == dict(noDamageLimit='0.1', type='lognormal')
assert node('0.1', '') == dict(noDamageLimit='0.1')
assert node('', 'lognormal') == dict(type='lognormal')
''')

plant('C03-ten-sets', 'C03', 'converter.py', [(
'''        ffs_node = record.nodedict(tset.tableFFSetContinuous)
''', '''        ffs_node = record.nodedict(sorted(
            tset.tableFFSetContinuous, key=lambda rec: rec['ordinal']))
''')], 'a continuous model with at least ten sets',
'the sets come out in another order', CONV + '''
def ffs(i):
    return """<ffs><taxonomy>t%d</taxonomy><IML IMT="PGA" imlUnit="g" minIML="0.1" maxIML="1"/>
<ffc ls="a"><params mean="1" stddev="1"/></ffc></ffs>""" % i
try:
    for n in (3, 12):
        node = convert('<fragilityModel format="continuous"><description>d</description>'
                       '<limitStates>a</limitStates>%s</fragilityModel>' % ''.join(map(ffs, range(n))))
        got = [f.taxonomy.text for f in node.getnodes('ffs')]
        assert got == ['t%d' % i for i in range(n)], got
finally:
    shutil.rmtree(d)
''')

GEN = 'from openquake.commonlib import general as G\n'
plant('G04-excluded-inside', 'G04', 'general.py', [(
'''                _deep_eq(a[key], b[key], decimal, exclude)
''', '''                _deep_eq(a[key], b[key], decimal)
''')], 'an excluded key inside a dictionary inside another',
'the key is compared', GEN + '''
assert G.deep_eq({'x': 1}, {'x': 2}, exclude=['x'])[0]
assert G.deep_eq([{'x': 1}], [{'x': 2}], exclude=['x'])[0]
assert G.deep_eq({'y': {'x': 1}}, {'y': {'x': 2}}, exclude=['x'])[0]
''')

plant('G04-excluded-slot', 'G04', 'general.py', [(
'''        for slot in a.__slots__:
            if not slot in exclude:
                _deep_eq(getattr(a, slot), getattr(b, slot), decimal, exclude)
''', '''        for slot in a.__slots__:
            if slot in exclude:
                break
            _deep_eq(getattr(a, slot), getattr(b, slot), decimal, exclude)
''')], 'an excluded slot before other slots which differ',
'the slots after the excluded one are not compared', GEN + '''
class S(object):
    __slots__ = ['x', 'y']
    def __init__(self, x, y):
        self.x, self.y = x, y
assert G.deep_eq(S(1, 2), S(1, 3), exclude=['y'])[0]
assert not G.deep_eq(S(1, 2), S(3, 2), exclude=['y'])[0]
assert not G.deep_eq(S(1, 2), S(3, 4), exclude=['x'])[0]
''')

plant('A04-kept-open', 'A04', 'csvmanager.py', [(
'''        self.rt2file[recordtype] = f = self.archive.open(fname, 'r')
        reader = csv.reader(f)
''', '''        f = self.rt2file.get(recordtype)
        if f is None or f.closed:
            f = self.rt2file[recordtype] = self.archive.open(fname, 'r')
        reader = csv.reader(f)
''')], 'a file read twice through the same manager which is not closed in between',
'the second reading starts from where the first ended', '''
from openquake.commonlib import csvmanager as M, records
class A(M.MemArchive):
    def _open(self, name, mode='r'):
        f = M.MemArchive._open(self, name, mode)
        return f
arc = A([('p__Location.csv', 'id,lon,lat\\n1,2,3\\n')])
man = M.CSVManager(arc, 'p')
got = [[list(r) for r in man.read(records.Location)]]
try:
    got.append([list(r) for r in man.read(records.Location)])
except StopIteration:
    got.append('end')
assert got == [[['1', '2', '3']]] * 2, got
''')
plant('A04-errors-once', 'A04', 'csvmanager.py', [(
'''            header = reader.next()
            if header != recordtype.fieldnames:
''', '''            header = reader.next()
            if header != recordtype.fieldnames and self.has_header is True:
                self.has_header = 'checked'
''')], 'a file with a wrong header read again after it was refused',
'it is read the second time', '''
from openquake.commonlib import csvmanager as M, records
arc = M.MemArchive([('p__Location.csv', 'id,lat,lon\\n1,2,3\\n')])
man = M.CSVManager(arc, 'p')
for i in range(2):
    try:
        list(man.read(records.Location))
    except M.InvalidFile:
        pass
    else:
        raise AssertionError(i)
''')

plant('R02-named-twice', 'R02', 'record.py', [(
'''        if isinstance(field_name, str):
            i = cls._name2index[field_name]
''', '''        if isinstance(field_name, str):
            i = cls._name2index.get(field_name, -1)
''')], 'a name which is not one of the fields',
'the last field is given for an unknown name', REC + '''
r = R('1', 'y')
assert r['a'] == '1'
for f in (lambda: r['c'], lambda: r.is_valid('c'), lambda: r.__setitem__('c', 'z')):
    try:
        f()
    except KeyError:
        pass
    else:
        raise AssertionError
''')
