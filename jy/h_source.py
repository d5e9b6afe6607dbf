import copy
import decimal
import codec
from h_ltree import err
from openquake.nrmllib import models
from openquake.nrmllib.hazard.parsers import SourceModelParser
from openquake.hazardlib import geo, mfd, pmf, tom
from openquake.hazardlib import source as hs
from openquake.commonlib import source


def dump(x):
    """hazardlib and NRML objects as plain values"""
    if isinstance(x, decimal.Decimal):
        return repr(float(x))
    if x is None or isinstance(x, (basestring, int, long, float)):
        return x
    if isinstance(x, geo.Point):
        return [x.longitude, x.latitude, float(x.depth)]
    if isinstance(x, geo.Line):
        return [dump(p) for p in x.points]
    if isinstance(x, geo.Polygon):
        return [list(p) for p in zip(x.lons, x.lats)]
    if isinstance(x, geo.NodalPlane):
        return [x.strike, x.dip, x.rake]
    if isinstance(x, pmf.PMF):
        return [[dump(p), dump(v)] for p, v in x.data]
    if isinstance(x, (geo.SimpleFaultSurface, geo.ComplexFaultSurface)):
        return [type(x).__name__, dump(x.mesh)]
    if isinstance(x, geo.MultiSurface):
        return [type(x).__name__, [dump(s) for s in x.surfaces]]
    if isinstance(x, geo.PlanarSurface):
        return [type(x).__name__, dict(
            mesh_spacing=x.mesh_spacing, strike=x.strike, dip=x.dip,
            corners=[list(c) for c in zip(
                x.corner_lons, x.corner_lats, x.corner_depths)])]
    if isinstance(x, (list, tuple)):
        return [dump(i) for i in x]
    if isinstance(x, dict):
        return dict((k, dump(v)) for k, v in x.items())
    if isinstance(x, type):
        return x.__name__
    if type(x).__name__ in ('WC1994', 'PeerMSR', 'PointMSR', 'CEUS2011'):
        return type(x).__name__
    return [type(x).__name__, dump(vars(x))]


def conv_(args):
    return source.NrmlHazardlibConverter(*args)


def model(xml, name='model.xml'):
    """the NRML objects of a source model"""
    return list(SourceModelParser(codec.write(name, xml)).parse(
        validate=False))


def convert(xml, conv):
    """each source converted, twice; whether the NRML object changed"""
    c = conv_(conv)
    out = []
    for src in model(xml):
        before = dump(src)
        one = err(lambda: dump(c(src)))
        middle = dump(src)
        two = err(lambda: dump(conv_(conv)(src)))
        out.append([one, two, before == middle == dump(src)])
    return out


def ruptures(specs, conv):
    c = conv_(conv)
    out = []
    for s in specs:
        if 'trace' in s:
            geom = models.SimpleFaultGeometry(
                wkt(s['trace']), float(s['dip']), float(s['upper']),
                float(s['lower']))
            cls = models.SimpleFaultRuptureModel
        else:
            geom = models.ComplexFaultGeometry(
                wkt(s['edges'][0]), wkt(s['edges'][-1]),
                [wkt(e) for e in s['edges'][1:-1]])
            cls = models.ComplexFaultRuptureModel
        r = cls(id=s['id'], magnitude=float(s['mag']), rake=float(s['rake']),
                hypocenter=[float(x) for x in s['hypo']], geometry=geom)
        before = dump(r)
        out.append([err(lambda: dump(c(r))), before == dump(r)])
    return out


def wkt(points):
    return 'LINESTRING(%s)' % ', '.join(' '.join(p) for p in points)


def collectors(cols):
    return [[c.trt, [s.source_id for s in c.sources], c.min_mag, c.max_mag,
             c.num_ruptures] for c in cols]


def parse(xml, conv, changes=None):
    """parse_source_model; `changes` = maximum magnitudes by source id"""
    fname = codec.write('model.xml', xml)
    calls = []

    def apply_unc(src):
        calls.append(src.source_id)
        if changes and src.source_id in changes:
            src.mfd = mfd.EvenlyDiscretizedMFD(
                changes[src.source_id], 0.1, [0.1])

    def run():
        if changes is None:
            cols = source.parse_source_model(fname, conv_(conv))
        else:
            cols = source.parse_source_model(fname, conv_(conv), apply_unc)
        res = collectors(cols)
        counts = []
        for c in cols:
            ws = [c.update_num_ruptures(s) for s in c.sources]
            counts.append([ws, [s.count_ruptures() for s in c.sources],
                           c.num_ruptures])
        return {'cols': res, 'calls': calls, 'counts': counts}
    return err(run)


def sources_(xml, conv):
    c = conv_(conv)
    return [c(s) for s in model(xml)]


def collector_ops(xml, conv, trt, ops):
    """A history of updates, filters and counts on a collector"""
    srcs = dict((s.source_id, s) for s in sources_(xml, conv))

    def run():
        col = source.SourceCollector(trt)
        out = []
        for op, arg in ops:
            if op == 'update':
                r = err(lambda: col.update(srcs[arg]))
                out.append('exc' in r)
            elif op == 'count':
                out.append([col.update_num_ruptures(srcs[arg]),
                            srcs[arg].count_ruptures()])
            elif op == 'filter':
                new = col.filter_sources(
                    lambda s: [1] if s.source_id in arg else None)
                out.append([type(new).__name__ == type(col).__name__,
                            new is not col] + collectors([new]))
                if new.sources:
                    # the copy has its own list
                    n = len(col.sources)
                    new.update(new.sources[0])
                    out[-1].append(len(col.sources) == n)
                else:
                    out[-1].append(True)
            elif op == 'init':
                out.append(collectors([source.SourceCollector(
                    trt, [srcs[i] for i in arg])])[0])
            out.append(collectors([col])[0])
        return out
    return err(run)


def sort_cols(specs):
    cols = []
    for trt, n in specs:
        c = source.SourceCollector(trt)
        c.sources = [None] * n
        cols.append(c)
    return [[c.trt, len(c.sources)] for c in sorted(cols)]


SKIP = ('source_id', 'name', 'mfd', 'location')


def split(xml, conv, discr, whole):
    """split_source of each source, the rates which are whole numbers being
    integers if `whole`"""
    out = []
    for src in sources_(xml, conv):
        if whole and isinstance(src.mfd, mfd.EvenlyDiscretizedMFD):
            src.mfd.occurrence_rates = [
                int(r) if r == int(r) else r
                for r in src.mfd.occurrence_rates]
        before = dump(src)

        def run():
            pieces = list(source.split_source(src, discr))
            res = []
            for p in pieces:
                res.append({
                    'class': type(p).__name__, 'id': p.source_id,
                    'name': p.name, 'same': p is src,
                    'rates': [list(r) for r in
                              p.mfd.get_annual_occurrence_rates()],
                    'loc': dump(getattr(p, 'location', None)),
                    'rest': dump(dict((k, v) for k, v in vars(p).items()
                                      if k not in SKIP))})
            return res
        res = err(run)
        info = {'id': src.source_id, 'name': src.name,
                'class': type(src).__name__,
                'rates': [list(r) for r in
                          src.mfd.get_annual_occurrence_rates()],
                'rest': dump(dict((k, v) for k, v in vars(src).items()
                                  if k not in SKIP))}
        if isinstance(src, hs.AreaSource):
            mesh = src.polygon.discretize(discr)
            info['mesh'] = [[float(x), float(y), 0.0]
                            for x, y in zip(mesh.lons, mesh.lats)]
        out.append([info, res, before == dump(src)])
    return out


def blocks(xml, conv, keep, max_weight, discr, consume):
    """gen_blocks of a collector; `keep` = ids of the sources near the sites.
    The expected pieces come from split_source itself"""
    srcs = sources_(xml, conv)
    pieces = []
    for s in srcs:
        if s.source_id in keep:
            for p in source.split_source(s, discr):
                pieces.append([p.source_id, p.count_ruptures()])
    asked = []

    def src_filter(src):
        asked.append(src.source_id)
        return ['site'] if src.source_id in keep else None

    def run():
        col = source.SourceCollector(srcs[0].tectonic_region_type)
        for s in srcs:
            col.update(s)
        gen = col.gen_blocks(src_filter, max_weight, discr)
        lazy = len(asked)
        out = []
        for b in gen:
            out.append([[s.source_id for s in b], b.weight])
            if consume is not None and len(out) >= consume:
                break
        return {'blocks': out, 'left': [s.source_id for s in col.sources],
                'num_ruptures': col.num_ruptures,
                'filtered': list(col.filtered_sources), 'asked': asked,
                'lazy': lazy}
    return {'pieces': pieces, 'res': err(run)}
