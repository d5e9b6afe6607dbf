"""Stand-in for shapely.wkt.loads (POINT, LINESTRING, POLYGON, MULTIPOINT)"""
import re
from shapely.geos import ReadingError

_MSG = 'Could not create geometry because of errors while reading input.'


class _Geom(object):
    def __init__(self, coords):
        self.coords = coords

    @property
    def has_z(self):
        return len(self.coords[0]) == 3


class Point(_Geom):
    geom_type = type = 'Point'
    x = property(lambda self: self.coords[0][0])
    y = property(lambda self: self.coords[0][1])
    z = property(lambda self: self.coords[0][2])


class LineString(_Geom):
    geom_type = type = 'LineString'


class LinearRing(_Geom):
    geom_type = type = 'LinearRing'


class Polygon(object):
    geom_type = type = 'Polygon'

    def __init__(self, exterior, interiors):
        self.exterior = LinearRing(exterior)
        self.interiors = [LinearRing(i) for i in interiors]


class MultiPoint(object):
    geom_type = type = 'MultiPoint'

    def __init__(self, pts):
        self.geoms = [Point([p]) for p in pts]

    def __iter__(self):
        return iter(self.geoms)


_NUM = r'[-+]?(?:\d+\.?\d*|\.\d+)(?:[eE][-+]?\d+)?'


def _coords(txt):
    out = []
    for p in txt.split(','):
        vals = p.split()
        if len(vals) not in (2, 3) or not all(
                re.match(_NUM + '$', v) for v in vals):
            raise ReadingError(_MSG)
        out.append(tuple(float(v) for v in vals))
    if len(set(map(len, out))) != 1:
        raise ReadingError(_MSG)
    return out


def loads(data):
    m = re.match(r'\s*([A-Za-z]+)\s*(?:Z\s*)?\((.*)\)\s*$', data, re.S)
    if not m:
        raise ReadingError(_MSG)
    kind, body = m.group(1).upper(), m.group(2)
    if kind == 'POINT':
        c = _coords(body)
        if len(c) != 1:
            raise ReadingError(_MSG)
        return Point(c)
    if kind == 'LINESTRING':
        c = _coords(body)
        if len(c) < 2:
            raise ReadingError(_MSG)
        return LineString(c)
    if kind == 'POLYGON':
        rings = re.findall(r'\(([^()]*)\)', body)
        if not rings:
            raise ReadingError(_MSG)
        rings = [_coords(r) for r in rings]
        for r in rings:
            if len(r) < 4 or r[0] != r[-1]:
                raise ReadingError(_MSG)
        return Polygon(rings[0], rings[1:])
    if kind == 'MULTIPOINT':
        return MultiPoint(_coords(body.replace('(', '').replace(')', '')))
    raise ReadingError(_MSG)
