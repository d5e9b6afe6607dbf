"""Stand-in for openquake.nrmllib.hazard.parsers"""
import decimal
from lxml import etree
from openquake import nrmllib
from openquake.nrmllib import models

N = '{%s}' % nrmllib.NAMESPACE
G = '{%s}' % nrmllib.GML_NAMESPACE


def _text(el, path):
    return el.find(path).text.strip()


def _wkt_line(el, dims):
    vals = el.find('.//' + G + 'posList').text.split()
    assert len(vals) % dims == 0, vals
    return 'LINESTRING(%s)' % ', '.join(
        ' '.join(vals[i:i + dims]) for i in range(0, len(vals), dims))


class SourceModelParser(object):
    """Parser of source models: .parse() returns an iterable of models"""

    def __init__(self, source):
        self.source = source

    def parse(self, validate=True):
        schema = etree.XMLSchema(file=nrmllib.nrml_schema_file())
        parser = etree.XMLParser(schema=schema if validate else None)
        tree = etree.parse(self.source, parser=parser)
        sm = tree.getroot().find(N + 'sourceModel')
        return models.SourceModel(sm.get('name'), self._sources(sm))

    def _sources(self, sm):
        for el in sm:
            tag = el.tag.replace(N, '')
            yield getattr(self, '_' + tag)(el)

    def _common(self, src, el):
        src.id = el.get('id')
        src.name = el.get('name')
        src.trt = el.get('tectonicRegion')
        src.mfd = self._mfd(el)
        return src

    def _mfd(self, el):
        e = el.find(N + 'truncGutenbergRichterMFD')
        if e is not None:
            return models.TGRMFD(
                a_val=float(e.get('aValue')), b_val=float(e.get('bValue')),
                min_mag=float(e.get('minMag')), max_mag=float(e.get('maxMag')))
        e = el.find(N + 'incrementalMFD')
        return models.IncrementalMFD(
            min_mag=float(e.get('minMag')), bin_width=float(e.get('binWidth')),
            occur_rates=map(float, e.find(N + 'occurRates').text.split()))

    def _dists(self, src, el):
        src.mag_scale_rel = _text(el, N + 'magScaleRel')
        src.rupt_aspect_ratio = float(_text(el, N + 'ruptAspectRatio'))
        src.nodal_plane_dist = [
            models.NodalPlane(
                probability=decimal.Decimal(e.get('probability')),
                strike=float(e.get('strike')), dip=float(e.get('dip')),
                rake=float(e.get('rake')))
            for e in el.iter(N + 'nodalPlane')]
        src.hypo_depth_dist = [
            models.HypocentralDepth(
                probability=decimal.Decimal(e.get('probability')),
                depth=float(e.get('depth'))) for e in el.iter(N + 'hypoDepth')]

    def _pointSource(self, el):
        src = self._common(models.PointSource(), el)
        self._dists(src, el)
        g = el.find(N + 'pointGeometry')
        src.geometry = models.PointGeometry(
            'POINT(%s)' % ' '.join(g.find('.//' + G + 'pos').text.split()),
            float(_text(g, N + 'upperSeismoDepth')),
            float(_text(g, N + 'lowerSeismoDepth')))
        return src

    def _areaSource(self, el):
        src = self._common(models.AreaSource(), el)
        self._dists(src, el)
        g = el.find(N + 'areaGeometry')
        v = g.find('.//' + G + 'posList').text.split()
        pts = [' '.join(v[i:i + 2]) for i in range(0, len(v), 2)]
        src.geometry = models.AreaGeometry(
            'POLYGON((%s))' % ', '.join(pts + pts[:1]),
            float(_text(g, N + 'upperSeismoDepth')),
            float(_text(g, N + 'lowerSeismoDepth')))
        return src

    def _fault(self, src, el):
        src.mag_scale_rel = _text(el, N + 'magScaleRel')
        src.rupt_aspect_ratio = float(_text(el, N + 'ruptAspectRatio'))
        src.rake = float(_text(el, N + 'rake'))

    def _simple_geom(self, g):
        return models.SimpleFaultGeometry(
            _wkt_line(g, 2), float(_text(g, N + 'dip')),
            float(_text(g, N + 'upperSeismoDepth')),
            float(_text(g, N + 'lowerSeismoDepth')))

    def _complex_geom(self, g):
        return models.ComplexFaultGeometry(
            _wkt_line(g.find(N + 'faultTopEdge'), 3),
            _wkt_line(g.find(N + 'faultBottomEdge'), 3),
            [_wkt_line(e, 3) for e in g.findall(N + 'intermediateEdge')])

    def _simpleFaultSource(self, el):
        src = self._common(models.SimpleFaultSource(), el)
        self._fault(src, el)
        src.geometry = self._simple_geom(el.find(N + 'simpleFaultGeometry'))
        return src

    def _complexFaultSource(self, el):
        src = self._common(models.ComplexFaultSource(), el)
        self._fault(src, el)
        src.geometry = self._complex_geom(el.find(N + 'complexFaultGeometry'))
        return src

    def _characteristicFaultSource(self, el):
        src = self._common(models.CharacteristicSource(), el)
        src.rake = float(_text(el, N + 'rake'))
        surf = el.find(N + 'surface')
        g = surf.find(N + 'simpleFaultGeometry')
        if g is not None:
            src.surface = self._simple_geom(g)
            return src
        g = surf.find(N + 'complexFaultGeometry')
        if g is not None:
            src.surface = self._complex_geom(g)
            return src

        def pt(e):
            return models.Point(*[float(e.get(x))
                                  for x in ('lon', 'lat', 'depth')])
        src.surface = [
            models.PlanarSurface(
                float(e.get('strike')), float(e.get('dip')),
                pt(e.find(N + 'topLeft')), pt(e.find(N + 'topRight')),
                pt(e.find(N + 'bottomLeft')), pt(e.find(N + 'bottomRight')))
            for e in surf.findall(N + 'planarSurface')]
        return src


class RuptureModelParser(object):
    def __init__(self, source):
        self.source = source

    def parse(self):
        raise NotImplementedError
