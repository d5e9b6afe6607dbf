import math
from openquake.hazardlib.geo.mesh import Mesh

EARTH = 6371.0


class Polygon(object):
    def __init__(self, points):
        if not len(set((p.longitude, p.latitude) for p in points)) >= 3:
            raise ValueError('polygon must have at least 3 unique vertices')
        self.lons = [float(p.longitude) for p in points]
        self.lats = [float(p.latitude) for p in points]

    def _inside(self, x, y):
        n = len(self.lons)
        inside = False
        j = n - 1
        for i in range(n):
            xi, yi, xj, yj = (self.lons[i], self.lats[i],
                              self.lons[j], self.lats[j])
            if (yi > y) != (yj > y) and \
                    x < (xj - xi) * (y - yi) / (yj - yi) + xi:
                inside = not inside
            j = i
        return inside

    def discretize(self, mesh_spacing):
        """A grid of points inside the polygon, mesh_spacing km apart"""
        south, north = min(self.lats), max(self.lats)
        west, east = min(self.lons), max(self.lons)
        km = math.pi * EARTH / 180.
        lons, lats = [], []
        nrows = int(round((north - south) * km / mesh_spacing, 6))
        for i in range(max(nrows, 0) + 1):
            lat = south + (i * mesh_spacing) / km + 1e-9
            coslat = math.cos(math.radians(lat))
            ncols = int(round((east - west) * km * coslat / mesh_spacing, 6))
            for j in range(max(ncols, 1)):
                lon = west + j * mesh_spacing / (km * coslat) + 1e-9
                if self._inside(lon, lat):
                    lons.append(lon)
                    lats.append(lat)
        if not lons:  # one point at least
            lons = [sum(self.lons) / len(self.lons)]
            lats = [sum(self.lats) / len(self.lats)]
        return Mesh(lons, lats)
