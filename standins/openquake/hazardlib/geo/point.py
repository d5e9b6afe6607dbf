class Point(object):
    EQUALITY_DISTANCE = 1e-3

    def __init__(self, longitude, latitude, depth=0.0):
        if not -180 <= longitude <= 180:
            raise ValueError('longitude %.6f outside range [-180, 180]'
                             % longitude)
        if not -90 <= latitude <= 90:
            raise ValueError('latitude %.6f outside range [-90, 90]'
                             % latitude)
        if depth < 0:
            raise ValueError('depth must be non-negative')
        self.longitude = longitude
        self.latitude = latitude
        self.depth = depth

    x = property(lambda self: self.longitude)
    y = property(lambda self: self.latitude)
    z = property(lambda self: self.depth)

    def __eq__(self, other):
        return isinstance(other, Point) and (
            self.longitude, self.latitude, self.depth) == (
            other.longitude, other.latitude, other.depth)

    def __ne__(self, other):
        return not self == other

    def __hash__(self):
        return hash((self.longitude, self.latitude, self.depth))

    def __repr__(self):
        return '<Latitude=%.6f, Longitude=%.6f, Depth=%.4f>' % (
            self.latitude, self.longitude, self.depth)
