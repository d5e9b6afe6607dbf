"""Generators of NRML risk models as [tag, attributes, text, children] trees,
with reference translations into tables"""
from xml.sax.saxutils import escape, quoteattr
from hypothesis import strategies as st
from pbt.gen import long_lists

NS = 'http://openquake.org/xmlns/nrml/0.4'


def N(tag, attrib=None, text=None, children=None):
    return [tag, attrib or {}, text, children or []]


def to_xml(node, indent=None, pad=''):
    tag, attrib, text, children = node
    out = '<%s%s' % (tag, ''.join(' %s=%s' % (k, quoteattr(v))
                                  for k, v in attrib.items()))
    if not children and text is None:
        return out + '/>'
    nl = '' if indent is None else '\n' + ' ' * indent
    out += '>'
    if text is not None:
        out += pad + escape(text) + pad
    for c in children:
        out += nl + to_xml(c, None if indent is None else indent + 1, pad)
    return out + nl + '</%s>' % tag


def nrml(node, indent=0, pad='\n  '):
    return ('<?xml version="1.0" encoding="utf-8"?>\n<nrml xmlns="%s" '
            'xmlns:gml="http://www.opengis.net/gml">%s</nrml>\n' % (
                NS, to_xml(node, indent, pad)))


def canon(node):
    """white space, order of costs and occupancies and the spelling of the
    damping do not matter"""
    tag, attrib, text, children = node
    attrib = dict(attrib)
    if 'saDamping' in attrib:
        attrib['saDamping'] = float(attrib['saDamping'])
    kids = [canon(c) for c in children]
    if tag in ('costs', 'occupancies'):
        kids.sort(key=lambda k: (k[1].get('type', ''), k[1].get('period', '')))
    if tag in ('description', 'taxonomy'):  # not a list of words
        text = (text or '').strip()
    else:
        text = ' '.join(text.split()) if text else ''
    if kids:
        text = ''
    return [tag, attrib, text, kids]


# ------------------------------------------------------------- small pieces

def uniq(elem, lo, hi):
    return long_lists(elem, lo, hi, unique=True)


ident = st.text('abcXYZ019_-.', min_size=1, max_size=5)
words = st.one_of(
    st.text('ab ,"\';<>&|é\t', min_size=1, max_size=14),
    st.sampled_from(['Sample buildings', 'x', 'a,b', '"q"', "it's", 'a  b',
                     'RC/DMRF-D/LR', 'città', '0', 'a\nb', 'one  two',
                     'first line.\n  Second line'])
).map(lambda t: ' '.join(t.split(' ')).strip(' \t\n')).filter(bool)
# the names of the columns are as good as any other text
COLUMNS = ['name', 'name1', 'id', 'id-7', 'category', 'asset_ref', 'asset_ref1',
           'vulnerabilitySetID', 'vulnerabilitySetID-x', 'stochasticEventSetId',
           'sourceModelTreePath', 'sourceModelTreePath2', 'taxonomy', 'IML']
label = st.one_of(ident, st.text('ab ,"é|=/', min_size=1, max_size=8).map(
    lambda t: t.strip()).filter(bool), st.sampled_from(COLUMNS))


def num_text(lo, hi, den=100):
    """a positive decimal with one of several spellings"""
    def spell(t):
        n, style = t
        v = n / den
        if style == 0:
            return repr(v)
        if style == 1:
            return '%d' % v if v == int(v) else repr(v)
        if style == 2:
            return '%.4f' % v
        if style == 3:
            return '%.6e' % v
        s = repr(v)
        return s[1:] if s.startswith('0.') else s
    return st.tuples(st.integers(int(lo * den), int(hi * den)),
                     st.integers(0, 4)).map(spell)


def coord(lim):
    return st.one_of(
        st.integers(-lim * 100, lim * 100).map(lambda n: repr(n / 100)),
        st.sampled_from(['0', '0.0', '-0.0', '1', '1.0', '1.00', str(lim),
                         '-%d' % lim, '1e1', '10', '+1', '+1.0', '01', '1.',
                         '.5', '0.50']))


def increasing(lo, hi, nlo=1, nhi=6):
    """texts of strictly increasing positive numbers"""
    return st.lists(st.integers(lo, hi), min_size=nlo, max_size=nhi,
                    unique=True).flatmap(
        lambda ns: st.lists(st.sampled_from(['%r', '%g', '%.3f']),
                            min_size=1, max_size=1).map(
            lambda f: [f[0] % (n / 100) for n in sorted(ns)]))


IMTS = ['PGA', 'PGV', 'MMI', 'SA(0.1)', 'SA(1)', 'SA(0.025)', 'IA', 'RSD',
        'PGD', 'SA(2.)', 'SA(10.0)']
imt = st.sampled_from(IMTS)
sep = st.sampled_from([' ', ' ', '  ', '\n', '\t '])


# ------------------------------------------------------------- exposure

@st.composite
def exposure(draw):
    buildings = draw(st.sampled_from([True, True, False]))
    kids = [N('description', {}, draw(words))]
    ctypes = []
    conv = []
    area = draw(st.booleans())
    if area:
        conv.append(N('area', {
            'type': draw(st.sampled_from(['aggregated', 'per_asset'])),
            'unit': draw(label)}))
    if buildings:
        ctypes = draw(st.lists(st.sampled_from(
            ['structural', 'contents', 'non_structural',
             'business_interruption', 'x', 'name', 'named']), max_size=4,
            unique=True))
        cts = []
        for c in ctypes:
            t = st.sampled_from(['aggregated', 'per_asset', 'per_area'])
            a = {'name': c, 'type': draw(t), 'unit': draw(label)}
            if draw(st.booleans()):
                a['retrofittedType'] = draw(t)
            if draw(st.booleans()):
                a['retrofittedUnit'] = draw(label)
            cts.append(N('costType', a))
        conv.append(N('costTypes', {}, None, cts))
        for tag in ('deductible', 'insuranceLimit'):
            if draw(st.integers(0, 5)):
                conv.append(N(tag, {'isAbsolute': draw(
                    st.sampled_from(['true', 'false', '0', '1']))}))
    if conv:
        kids.append(N('conversions', {}, None, conv))
    lons = draw(st.lists(coord(180), min_size=1, max_size=3))
    lats = draw(st.lists(coord(90), min_size=1, max_size=3))
    all_periods = draw(st.lists(st.sampled_from(
        ['day', 'night', 'transit', 'a b', 'x']), max_size=4, unique=True))
    assets = []
    for ref in draw(uniq(label, 0, 6)):
        a = {'id': ref, 'taxonomy': draw(label),
             'number': draw(num_text(0, 50))}
        if draw(st.booleans()):
            a['area'] = draw(num_text(0, 500))
        sub = [N('location', {'lon': draw(st.sampled_from(lons)),
                              'lat': draw(st.sampled_from(lats))})]
        costs = []
        mine = draw(st.lists(st.sampled_from(ctypes), unique=True)) \
            if ctypes else []
        for c in mine:
            ca = {'type': c, 'value': draw(num_text(0, 9000))}
            for k in ('retrofitted', 'deductible', 'insuranceLimit'):
                if draw(st.booleans()):
                    ca[k] = draw(num_text(0, 90))
            costs.append(N('cost', ca))
        if costs:
            sub.append(N('costs', {}, None, costs))
        occ = [N('occupancy', {'period': p, 'occupants': draw(
            num_text(0, 300))}) for p in (draw(st.lists(
                st.sampled_from(all_periods), unique=True))
                if all_periods else [])]
        if occ:
            sub.append(N('occupancies', {}, None, occ))
        assets.append(N('asset', a, None, sub))
    kids.append(N('assets', {}, None, assets))
    attrib = {'id': draw(label),
              'category': 'buildings' if buildings else 'population'}
    if draw(st.booleans()):
        attrib['taxonomySource'] = draw(label)
    return N('exposureModel', attrib, None, kids)


def sub(node, tag):
    for c in node[3]:
        if c[0] == tag:
            return c
    return None


def subs(node, tag):
    return [c for c in node[3] if c[0] == tag] if node else []


def exposure_tables(node):
    a = node[1]
    t = {'CostType': [], 'Exposure': [], 'Location': [], 'Asset': [],
         'Cost': [], 'Occupancy': []}
    conv = sub(node, 'conversions')
    area = conv and sub(conv, 'area') or N('')
    for c in subs(conv and sub(conv, 'costTypes'), 'costType'):
        t['CostType'].append([c[1].get(k, '') for k in (
            'name', 'type', 'unit', 'retrofittedType', 'retrofittedUnit')])

    def flag(tag):
        n = conv and sub(conv, tag)
        return n[1]['isAbsolute'] if n else ''
    t['Exposure'].append([
        a['id'], a['category'], a.get('taxonomySource', 'UNKNOWN'),
        sub(node, 'description')[2].strip(), area[1].get('type', ''),
        area[1].get('unit', ''), flag('deductible'), flag('insuranceLimit')])
    locs = {}
    for asset in sub(node, 'assets')[3]:
        ref = asset[1]['id']
        for o in subs(sub(asset, 'occupancies'), 'occupancy'):
            t['Occupancy'].append([ref, o[1]['period'], o[1]['occupants']])
        for c in subs(sub(asset, 'costs'), 'cost'):
            t['Cost'].append([ref] + [c[1].get(k, '') for k in (
                'type', 'value', 'retrofitted', 'deductible',
                'insuranceLimit')])
        loc = sub(asset, 'location')[1]
        key = loc['lon'], loc['lat']
        if key not in locs:
            locs[key] = str(len(locs) + 1)
            t['Location'].append([locs[key]] + list(key))
        t['Asset'].append([locs[key], ref, asset[1]['taxonomy'],
                           asset[1]['number'], asset[1].get('area', '')])
    return t


def exposure_expected(node):
    attrib = dict(node[1])
    attrib.setdefault('taxonomySource', 'UNKNOWN')
    return [node[0], attrib, node[2], node[3]]


# ------------------------------------------------------------- vulnerability

@st.composite
def vulnerability(draw, nmax=4):
    sets = []
    for sid in draw(uniq(label, 0, nmax)):
        imls = draw(increasing(0, 1000))
        n = len(imls)
        kids = [N('IML', {'IMT': draw(imt)}, draw(sep).join(imls))]
        for fid in draw(uniq(label, 1, 3)):
            ratios = draw(st.lists(num_text(0, 1, 1000), min_size=n,
                                   max_size=n))
            covs = draw(st.lists(num_text(0, 2), min_size=n, max_size=n))
            covs = ['0' if float(r) == 0 else c
                    for r, c in zip(ratios, covs)]
            kids.append(N('discreteVulnerability', {
                'vulnerabilityFunctionID': fid,
                'probabilisticDistribution': draw(
                    st.sampled_from(['LN', 'BT']))}, None, [
                        N('lossRatio', {}, draw(sep).join(ratios)),
                        N('coefficientsVariation', {}, ' '.join(covs))]))
        sets.append(N('discreteVulnerabilitySet', {
            'vulnerabilitySetID': sid,
            'assetCategory': draw(st.sampled_from(
                ['population', 'buildings'])),
            'lossCategory': draw(label)}, None, kids))
    return N('vulnerabilityModel', {}, None, sets)


def vulnerability_tables(node):
    t = {'DiscreteVulnerabilitySet': [], 'DiscreteVulnerability': [],
         'DiscreteVulnerabilityData': []}
    for s in node[3]:
        sid = s[1]['vulnerabilitySetID']
        iml = sub(s, 'IML')
        t['DiscreteVulnerabilitySet'].append(
            [sid, s[1]['assetCategory'], s[1]['lossCategory'],
             iml[1]['IMT']])
        for f in subs(s, 'discreteVulnerability'):
            fid = f[1]['vulnerabilityFunctionID']
            t['DiscreteVulnerability'].append(
                [sid, fid, f[1]['probabilisticDistribution']])
            for row in zip(iml[2].split(), sub(f, 'lossRatio')[2].split(),
                           sub(f, 'coefficientsVariation')[2].split()):
                t['DiscreteVulnerabilityData'].append([sid, fid] + list(row))
    return t


# ------------------------------------------------------------- fragility

@st.composite
def fragility(draw, fmt=None):
    fmt = fmt or draw(st.sampled_from(['discrete', 'continuous']))
    states = draw(uniq(st.one_of(
        st.sampled_from(['minor', 'moderate', 'severe', 'collapse', 'slight',
                         'limitState', 'limitState1', 'no_damage']),
        st.from_regex(r'[a-c_][a-c_0-9]{0,3}', fullmatch=True)), 1, 4))
    kids = [N('description', {}, draw(words)),
            N('limitStates', {}, draw(sep).join(states))]
    for _ in range(draw(st.integers(0, 3))):
        a = {}
        if draw(st.booleans()):
            a['noDamageLimit'] = draw(num_text(0, 3))
        sub_ = [N('taxonomy', {}, draw(words))]
        if fmt == 'discrete':
            imls = draw(increasing(0, 1200))
            n = len(imls)
            sub_.append(N('IML', {'IMT': draw(imt), 'imlUnit': draw(label)},
                          draw(sep).join(imls)))
            for ls in states:
                poes = draw(st.lists(num_text(0, 1, 1000), min_size=n,
                                     max_size=n))
                sub_.append(N('ffd', {'ls': ls}, None, [
                    N('poEs', {}, draw(sep).join(poes))]))
        else:
            if draw(st.booleans()):
                a['type'] = draw(st.sampled_from(['lognormal', 'x']))
            sub_.append(N('IML', {
                'IMT': draw(imt), 'imlUnit': draw(label),
                'minIML': draw(num_text(0, 2)),
                'maxIML': draw(num_text(2, 9))}))
            for ls in states:
                sub_.append(N('ffc', {'ls': ls}, None, [N('params', {
                    'mean': draw(num_text(0.01, 20)),
                    'stddev': draw(num_text(0.01, 9))})]))
        kids.append(N('ffs', a, None, sub_))
    return N('fragilityModel', {'format': fmt}, None, kids)


def fragility_tables(node):
    fmt = node[1]['format']
    F = fmt.capitalize()
    states = sub(node, 'limitStates')[2].split()
    t = {'Fragility' + F: [[fmt, sub(node, 'description')[2].strip(),
                            sub(node, 'limitStates')[2].strip()]],
         'FFLimitState' + F: [[ls] for ls in states],
         'FFSet' + F: [], 'FFData' + F: []}
    for i, f in enumerate(subs(node, 'ffs'), 1):
        iml = sub(f, 'IML')
        row = [str(i), sub(f, 'taxonomy')[2].strip(),
               f[1].get('noDamageLimit', '')]
        if fmt == 'discrete':
            row += [iml[1]['IMT'], iml[1]['imlUnit']]
            for d in subs(f, 'ffd'):
                for x, p in zip(iml[2].split(), sub(d, 'poEs')[2].split()):
                    t['FFData' + F].append([d[1]['ls'], str(i), x, p])
        else:
            row += [f[1].get('type', '')] + [iml[1][k] for k in (
                'IMT', 'imlUnit', 'minIML', 'maxIML')]
            for c in subs(f, 'ffc'):
                for p in ('mean', 'stddev'):
                    t['FFData' + F].append([c[1]['ls'], str(i), p,
                                            sub(c, 'params')[1][p]])
        t['FFSet' + F].append(row)
    return t


# ------------------------------------------------------------- gmf

@st.composite
def gmf_nodes(draw, nmax=4):
    pts = draw(st.lists(st.tuples(coord(180), coord(90)), min_size=1,
                        max_size=nmax, unique=True))
    return [N('node', {'lon': x, 'lat': y, 'gmv': draw(num_text(0, 3, 1000))})
            for x, y in pts]


def gmf_attr(i):
    if i.startswith('SA'):
        return {'IMT': 'SA', 'saPeriod': i[3:-1], 'saDamping': '5'}
    return {'IMT': i}


@st.composite
def gmf(draw):
    if draw(st.integers(0, 2)) == 0:     # scenario
        kids = []
        for i in draw(st.lists(imt, max_size=4, unique=True)):
            kids.append(N('gmf', gmf_attr(i), None, draw(gmf_nodes())))
        return N('gmfSet', {}, None, kids)
    sets = []
    for ses in draw(st.lists(st.integers(1, 30), max_size=4, unique=True)):
        kids = []
        for i, rup in draw(st.lists(st.tuples(imt, st.one_of(
                st.sampled_from(['r1', 'r2', 'rlz=00|ses=0001|src=1|i=0']),
                label)), max_size=4, unique=True)):
            kids.append(N('gmf', dict(gmf_attr(i), ruptureId=rup), None,
                          draw(gmf_nodes())))
        sets.append(N('gmfSet', {'stochasticEventSetId': str(ses),
                                 'investigationTime': draw(
                                     num_text(0.01, 100))}, None, kids))
    return N('gmfCollection', {'sourceModelTreePath': draw(label),
                               'gsimTreePath': draw(label)}, None, sets)


def gmf_tables(node):
    t = {'GmfCollection': [], 'GmfSet': [], 'Gmf': [], 'GmfData': []}
    if node[0] == 'gmfSet':
        sets = [node]
    else:
        t['GmfCollection'].append([node[1]['sourceModelTreePath'],
                                   node[1]['gsimTreePath']])
        sets = node[3]
    for s in sets:
        ses = s[1].get('stochasticEventSetId', '0')
        t['GmfSet'].append([ses, s[1].get('investigationTime', '')])
        for g in s[3]:
            i = g[1]['IMT']
            if i == 'SA':
                i += '(%s)' % g[1]['saPeriod']
            rup = g[1].get('ruptureId', '')
            t['Gmf'].append([ses, i, rup])
            for n in g[3]:
                t['GmfData'].append([ses, i, rup] + [
                    n[1][k] for k in ('lon', 'lat', 'gmv')])
    return t


MODELS = {
    'exposureModel': (exposure_tables, exposure_expected, 'Exposure'),
    'vulnerabilityModel': (vulnerability_tables, lambda n: n,
                           'Vulnerability'),
    'fragilityModel': (fragility_tables, lambda n: n, None),
    'gmfSet': (gmf_tables, lambda n: n, 'GmfCollection'),
    'gmfCollection': (gmf_tables, lambda n: n, 'GmfCollection')}
FIELDS = {
    'CostType': 'name type unit retrofittedType retrofittedUnit',
    'Exposure': 'id category taxonomySource description area_type area_unit '
    'deductible_is_absolute insurance_limit_is_absolute',
    'Location': 'id lon lat',
    'Asset': 'location_id asset_ref taxonomy number area',
    'Cost': 'asset_ref type value retrofitted deductible insurance_limit',
    'Occupancy': 'asset_ref period occupants',
    'DiscreteVulnerabilitySet': 'vulnerabilitySetID assetCategory '
    'lossCategory IMT',
    'DiscreteVulnerability': 'vulnerabilitySetID vulnerabilityFunctionID '
    'probabilisticDistribution',
    'DiscreteVulnerabilityData': 'vulnerabilitySetID vulnerabilityFunctionID '
    'IML lossRatio coefficientsVariation',
    'FragilityDiscrete': 'format description limitStates',
    'FFLimitStateDiscrete': 'limitState',
    'FFSetDiscrete': 'ordinal taxonomy noDamageLimit IMT imlUnit',
    'FFDataDiscrete': 'limitState ffs_ordinal iml poe',
    'FragilityContinuous': 'format description limitStates',
    'FFLimitStateContinuous': 'limitState',
    'FFSetContinuous': 'ordinal taxonomy noDamageLimit type IMT imlUnit '
    'minIML maxIML',
    'FFDataContinuous': 'limitState ffs_ordinal param value',
    'GmfCollection': 'sourceModelTreePath gsimTreePath',
    'GmfSet': 'stochasticEventSetId investigationTime',
    'Gmf': 'stochasticEventSetId imtStr ruptureId',
    'GmfData': 'stochasticEventSetId imtStr ruptureId lon lat gmv'}
