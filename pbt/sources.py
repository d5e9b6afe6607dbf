"""Seismic sources: generators, NRML writer, expected hazardlib objects

All the numbers of a source are texts, written as they are in the XML"""
import copy
from decimal import Decimal, ROUND_HALF_UP
from xml.sax.saxutils import quoteattr, escape

from hypothesis import strategies as st

from pbt.trees import TRTS, STYPES, NS, weights, Ids

MSRS = ['WC1994', 'PeerMSR', 'PointMSR', 'CEUS2011']


def dec(lo, hi, den=10):
    return st.integers(int(lo * den), int(hi * den)).map(
        lambda i: repr(i / den) if i % den else
        ('%d' % (i // den) if i % 2 else '%.1f' % (i / den)))


@st.composite
def mfd(draw, zeros=True):
    if draw(st.booleans()):
        lo = draw(st.integers(40, 60))
        return ['gr', draw(st.one_of(dec(1, 5), dec(1, 5), dec(-4, 1))),
                draw(dec(.5, 1.4, 100)),
                repr(lo / 10), repr((lo + draw(st.integers(3, 20))) / 10)]
    rate = st.sampled_from(
        ['0.001', '1e-4', '0.5', '2', '3.25e-3', '1.0', '2e-9',
         '1e-13', '4.5e-20'] +
        (['0.0', '0'] if zeros else []))
    n = draw(st.integers(1, 6))
    return ['incr', draw(st.one_of(
        dec(4, 7), dec(4, 7), dec(4, 7), st.sampled_from(
            ['0', '0.0', '1', '5.12345678', '6.333333333333333', '4.00000001',
             '5.05']))),
        draw(st.sampled_from(
        ['0.1', '0.2', '1.0', '0.25', '.5', '0.33333333', '0.0001'])),
        [draw(rate) for _ in range(n)]]


@st.composite
def pmf(draw, elem, nmax=3):
    """[[probability, ...], ...] with positive probabilities"""
    ws = [w for w in draw(weights(draw(st.integers(1, nmax))))
          if Decimal(w) > 0]
    return [[w] + draw(elem) for w in ws]


angle = st.one_of(st.integers(0, 360).map(str), dec(0, 360))
rake = st.one_of(st.integers(-180, 180).map(str), dec(-180, 180))
dip = st.one_of(st.integers(1, 90).map(str), dec(.5, 90))


@st.composite
def line(draw, dims, nmax=4):
    """Distinct points one after the other"""
    x, y = draw(st.integers(-1700, 1700)), draw(st.integers(-800, 800))
    out = []
    for _ in range(draw(st.integers(2, nmax))):
        p = [repr(x / 10), repr(y / 10)]
        if dims == 3:
            p.append(draw(dec(0, 30)))
        out.append(p)
        x += draw(st.integers(1, 5))
        y += draw(st.integers(-3, 5))
    return out


@st.composite
def polygon(draw):
    """A small convex polygon (the corners of an octagon, stretched)"""
    x, y = draw(st.integers(-170, 170)), draw(st.integers(-75, 75))
    w, h = draw(st.integers(3, 30)) / 100, draw(st.integers(3, 30)) / 100
    corners = [(0, 1), (0, 2), (1, 3), (2, 3), (3, 2), (3, 1), (2, 0), (1, 0)]
    keep = draw(st.lists(st.integers(0, 7), min_size=3, max_size=8,
                         unique=True))
    pts = [corners[i] for i in sorted(keep)]
    if draw(st.booleans()):
        pts = pts[::-1]
    k = draw(st.integers(0, len(pts) - 1))
    pts = pts[k:] + pts[:k]
    return [['%.4f' % (x + a * w), '%.4f' % (y + b * h)] for a, b in pts]


@st.composite
def plane(draw):
    top, bottom = draw(st.integers(0, 10)), draw(st.integers(11, 40))
    x, y = draw(st.integers(-170, 170)), draw(st.integers(-80, 80))

    def pt(z, dx):
        return [repr(x + dx / 10), repr(y + draw(st.integers(-9, 9)) / 10),
                '%d.0' % z]
    return {'strike': draw(angle), 'dip': draw(dip),
            'topLeft': pt(top, 0), 'topRight': pt(top, 5),
            'bottomLeft': pt(bottom, 1), 'bottomRight': pt(bottom, 6)}


names = st.one_of(
    st.sampled_from(['a name', 'Zone 1', "d'Aosta", 'a & b', 'x<y', '5', 'Z\u00fcrich']),
    st.text('abc 12', min_size=1, max_size=6).map(str.strip).filter(bool))


def edges(draw):
    return [draw(line(3)) for _ in range(draw(
        st.sampled_from([2, 3, 4, 5, 7])))]


@st.composite
def source(draw, kind=None, id=None, trt=None, zeros=True):
    kind = kind or draw(st.sampled_from(STYPES))
    s = {'kind': kind, 'id': id or draw(st.text('abc12_', min_size=1,
                                                max_size=4)),
         'name': draw(names), 'trt': trt or draw(st.sampled_from(TRTS)),
         'mfd': draw(mfd(zeros))}
    if kind != 'characteristicFault':
        s['msr'] = draw(st.sampled_from(MSRS))
        s['rar'] = draw(dec(.5, 3))
    up = draw(st.integers(0, 10))
    low = up + draw(st.integers(1, 20))
    if kind in ('point', 'area'):
        s['upper'], s['lower'] = '%d.0' % up, str(low)
        s['npd'] = draw(pmf(st.tuples(angle, dip, rake).map(list)))
        s['hdd'] = draw(pmf(dec(up, low).map(lambda t: [t])))
        if kind == 'point':
            s['pos'] = [draw(dec(-180, 180)), draw(dec(-90, 90))]
        else:
            s['poly'] = draw(polygon())
    elif kind == 'simpleFault':
        s.update(simple(draw, up, low))
    elif kind == 'complexFault':
        s['edges'] = edges(draw)
    else:
        which = draw(st.integers(0, 2))
        if which == 0:
            s.update(simple(draw, up, low))
        elif which == 1:
            s['edges'] = edges(draw)
        else:
            s['planes'] = [draw(plane()) for _ in range(
                draw(st.integers(1, 3)))]
    if kind not in ('point', 'area'):
        s['rake'] = draw(rake)
    return s


def simple(draw, up, low):
    return {'upper': '%d' % up, 'lower': '%d.0' % low, 'dip': draw(dip),
            'trace': draw(line(2))}


@st.composite
def model(draw, nmax=6, kinds=None, zeros=True):
    """A list of sources with distinct ids"""
    ids = Ids(draw)
    n = draw(st.integers(1, nmax))
    trts = draw(st.permutations(TRTS))[:draw(st.integers(1, 3))]
    if draw(st.integers(0, 4)) == 0:    # types which are nearly the same
        t = trts[0]
        trts.append(draw(st.sampled_from(
            [t + ' ', ' ' + t, t.lower(), t.upper(), t.replace(' ', '  '),
             t.replace(' ', ''), t + 's', t[:-1]])))
    out = []
    for _ in range(n):
        if out and draw(st.integers(0, 2)) == 0:
            out.append(draw(alike(draw(st.sampled_from(out)), ids(), trts,
                                  zeros)))
        else:
            out.append(draw(source(
                kind=kinds and draw(st.sampled_from(kinds)), id=ids(),
                trt=draw(st.sampled_from(trts)), zeros=zeros)))
    return out


TOGETHER = [['upper', 'lower', 'hdd'], ['upper', 'lower']]


@st.composite
def alike(draw, one, id, trts, zeros):
    """A source like another one in all but one thing"""
    new = copy.deepcopy(dict(one, id=id))
    fresh = draw(source(kind=one['kind'], id=id,
                        trt=draw(st.sampled_from(trts)), zeros=zeros))
    k = draw(st.sampled_from(sorted(
        k for k in one if k in fresh and k not in ('id', 'kind'))))
    if draw(st.booleans()) or (k == 'mfd' and draw(st.booleans())):
        m = list(one['mfd'])
        if m[0] == 'gr':
            i = draw(st.integers(1, 4))
            m[i] = (draw(dec(1, 5)), draw(dec(.5, 1.4, 100)),
                    repr(float(m[3]) - .5), repr(float(m[4]) + .5))[i - 1]
        elif fresh['mfd'][0] == 'incr':
            i = draw(st.integers(1, 3))
            m[i] = fresh['mfd'][i]
        new['mfd'] = m
        return new
    for ks in TOGETHER:
        if k in ks and all(x in one for x in ks):
            new.update({x: fresh[x] for x in ks if x in fresh})
            return new
    new[k] = fresh[k]
    return new


# ------------------------------------------------------------ NRML

def el(tag, text=None, kids=(), **attrib):
    a = ''.join(' %s=%s' % (k, quoteattr(v)) for k, v in attrib.items())
    return '<%s%s>%s%s</%s>' % (tag, a, '' if text is None else escape(text),
                                ''.join(kids), tag)


def flat(points):
    return '\n '.join(' '.join(p) for p in points)


def line_xml(points):
    return el('gml:LineString', kids=[el('gml:posList', flat(points))])


def simple_xml(s):
    return el('simpleFaultGeometry', kids=[
        line_xml(s['trace']), el('dip', s['dip']),
        el('upperSeismoDepth', s['upper']),
        el('lowerSeismoDepth', s['lower'])])


def complex_xml(s):
    e = s['edges']
    return el('complexFaultGeometry', kids=[
        el('faultTopEdge', kids=[line_xml(e[0])])] + [
        el('intermediateEdge', kids=[line_xml(x)]) for x in e[1:-1]] + [
        el('faultBottomEdge', kids=[line_xml(e[-1])])])


def source_xml(s):
    kind = s['kind']
    k = []
    if kind in ('point', 'area'):
        if kind == 'point':
            geom = el('gml:Point', kids=[el('gml:pos', ' '.join(s['pos']))])
        else:
            geom = el('gml:Polygon', kids=[el('gml:exterior', kids=[
                el('gml:LinearRing', kids=[
                    el('gml:posList', flat(s['poly']))])])])
        k.append(el(kind + 'Geometry', kids=[
            geom, el('upperSeismoDepth', s['upper']),
            el('lowerSeismoDepth', s['lower'])]))
    elif kind == 'characteristicFault':
        pass
    elif 'trace' in s:
        k.append(simple_xml(s))
    else:
        k.append(complex_xml(s))
    if 'msr' in s:
        k.append(el('magScaleRel', s['msr']))
        k.append(el('ruptAspectRatio', s['rar']))
    m = s['mfd']
    if m[0] == 'gr':
        k.append(el('truncGutenbergRichterMFD', aValue=m[1], bValue=m[2],
                    minMag=m[3], maxMag=m[4]))
    else:
        k.append(el('incrementalMFD', minMag=m[1], binWidth=m[2], kids=[
            el('occurRates', ' '.join(m[3]))]))
    if 'npd' in s:
        k.append(el('nodalPlaneDist', kids=[
            el('nodalPlane', probability=p, strike=a, dip=b, rake=c)
            for p, a, b, c in s['npd']]))
        k.append(el('hypoDepthDist', kids=[
            el('hypoDepth', probability=p, depth=d) for p, d in s['hdd']]))
    if 'rake' in s:
        k.append(el('rake', s['rake']))
    if kind == 'characteristicFault':
        if 'trace' in s:
            kids = [simple_xml(s)]
        elif 'edges' in s:
            kids = [complex_xml(s)]
        else:
            kids = [el('planarSurface', strike=p['strike'], dip=p['dip'],
                       kids=[el(c, lon=p[c][0], lat=p[c][1], depth=p[c][2])
                             for c in ('topLeft', 'topRight', 'bottomLeft',
                                       'bottomRight')])
                    for p in s['planes']]
        k.append(el('surface', kids=kids))
    return el(kind + 'Source', kids=['\n'] + k + ['\n'], id=s['id'],
              name=s['name'], tectonicRegion=s['trt'])


def model_xml(sources):
    return ('<?xml version="1.0" encoding="utf-8"?>\n<nrml xmlns="%s" '
            'xmlns:gml="http://www.opengis.net/gml">\n%s</nrml>\n' % (
                NS, el('sourceModel', name='m', kids=[
                    '\n'] + [source_xml(s) + '\n' for s in sources])))


# ------------------------------------------------------------ expectations

F = float


def pt(p):
    return [F(x) for x in p] + [0.0] * (3 - len(p))


def exp_mfd(m, width):
    if m[0] == 'gr':
        return ['TruncatedGRMFD', {
            'a_val': F(m[1]), 'b_val': F(m[2]), 'min_mag': F(m[3]),
            'max_mag': F(m[4]), 'bin_width': width}]
    return ['EvenlyDiscretizedMFD', {
        'min_mag': F(m[1]), 'bin_width': F(m[2]),
        'occurrence_rates': [F(r) for r in m[3]]}]


def exp_simple_surface(s, spacing):
    return ['SimpleFaultSurface', {
        'trace': [pt(p) for p in s['trace']], 'upper': F(s['upper']),
        'lower': F(s['lower']), 'dip': F(s['dip']), 'spacing': spacing}]


def exp_complex_surface(s, spacing):
    return ['ComplexFaultSurface', {
        'edges': [[pt(p) for p in e] for e in s['edges']],
        'spacing': spacing}]


CLASS = {'point': 'PointSource', 'area': 'AreaSource',
         'simpleFault': 'SimpleFaultSource',
         'complexFault': 'ComplexFaultSource',
         'characteristicFault': 'CharacteristicFaultSource'}


def expected(s, conv):
    """What the worker's dump of the hazardlib source should be; conv =
    [investigation time, mesh spacing, bin width, discretization]"""
    time, spacing, width, discr = conv
    kind = s['kind']
    d = {'source_id': s['id'], 'name': s['name'],
         'tectonic_region_type': s['trt'], 'mfd': exp_mfd(s['mfd'], width),
         'temporal_occurrence_model': ['PoissonTOM', {'time_span': time}]
         if time else None}
    if kind == 'characteristicFault':
        d['rake'] = F(s['rake'])
        d.update(rupture_mesh_spacing=None, rupture_aspect_ratio=None,
                 magnitude_scaling_relationship=None)
        if 'trace' in s:
            d['surface'] = exp_simple_surface(s, spacing)
        elif 'edges' in s:
            d['surface'] = exp_complex_surface(s, spacing)
        else:
            d['surface'] = ['MultiSurface', [
                ['PlanarSurface', {
                    'mesh_spacing': spacing, 'strike': F(p['strike']),
                    'dip': F(p['dip']), 'corners': [
                        pt(p[c]) for c in ('topLeft', 'topRight',
                                           'bottomLeft', 'bottomRight')]}]
                for p in s['planes']]]
        return [CLASS[kind], d]
    d.update(rupture_mesh_spacing=spacing, rupture_aspect_ratio=F(s['rar']),
             magnitude_scaling_relationship=s['msr'])
    if kind in ('point', 'area'):
        d['upper_seismogenic_depth'] = F(s['upper'])
        d['lower_seismogenic_depth'] = F(s['lower'])
        d['nodal_plane_distribution'] = [
            [norm(p), [F(a), F(b), F(c)]] for p, a, b, c in s['npd']]
        d['hypocenter_distribution'] = [[norm(p), F(x)] for p, x in s['hdd']]
        if kind == 'point':
            d['location'] = pt(s['pos'])
        else:
            d['location'] = None
            d['polygon'] = [[F(x), F(y)] for x, y in s['poly']]
            d['area_discretization'] = discr
    else:
        d['rake'] = F(s['rake'])
        if kind == 'simpleFault':
            d['fault_trace'] = [pt(p) for p in s['trace']]
            d['upper_seismogenic_depth'] = F(s['upper'])
            d['lower_seismogenic_depth'] = F(s['lower'])
            d['dip'] = F(s['dip'])
        else:
            d['edges'] = [[pt(p) for p in e] for e in s['edges']]
    return [CLASS[kind], d]


def norm(text):
    """the text the worker's dump gives to a decimal"""
    return repr(float(text))


def rates(m, width):
    """(magnitude, annual rate) of a magnitude distribution"""
    if m[0] == 'incr':
        return [(F(m[1]) + i * F(m[2]), F(r)) for i, r in enumerate(m[3])]
    a, b, lo, hi = map(F, m[1:])
    lo = pyround(lo / width) * width
    hi = pyround(hi / width) * width
    n = int(pyround((hi - lo) / width)) if lo != hi else 1
    mag = lo + width / 2
    out = []
    for _ in range(n):
        out.append((mag, 10 ** (a - b * (mag - width / 2)) -
                    10 ** (a - b * (mag + width / 2))))
        mag += width
    return out


def pyround(x):
    """round of Python 2: half away from zero"""
    return float(Decimal(x).quantize(Decimal(1), ROUND_HALF_UP))


def min_max(m, width):
    r = rates(m, width)
    return r[0][0], r[-1][0]
