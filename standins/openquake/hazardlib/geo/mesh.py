import numpy


class Mesh(object):
    def __init__(self, lons, lats, depths=None):
        assert len(lons) == len(lats)
        self.lons = numpy.array(lons)
        self.lats = numpy.array(lats)
        self.depths = depths

    def __len__(self):
        return len(self.lons)

    def __iter__(self):
        from openquake.hazardlib.geo.point import Point
        for i, (lon, lat) in enumerate(zip(self.lons, self.lats)):
            yield Point(lon, lat, self.depths[i] if self.depths else 0.)
