class NodalPlane(object):
    def __init__(self, strike, dip, rake):
        if not 0 <= strike <= 360:
            raise ValueError('strike %g is out of range' % strike)
        if not 0 < dip <= 90:
            raise ValueError('dip %g is out of range' % dip)
        if not -180 <= rake <= 180:
            raise ValueError('rake %g is out of range' % rake)
        self.strike = strike
        self.dip = dip
        self.rake = rake
