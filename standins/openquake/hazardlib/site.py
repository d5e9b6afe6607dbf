class Site(object):
    def __init__(self, location, vs30, vs30measured, z1pt0, z2pt5):
        if not vs30 > 0:
            raise ValueError('vs30 must be positive')
        self.location = location
        self.vs30 = vs30
        self.vs30measured = vs30measured
        self.z1pt0 = z1pt0
        self.z2pt5 = z2pt5


class SiteCollection(object):
    def __init__(self, sites):
        self.sites = list(sites)

    def __len__(self):
        return len(self.sites)

    def __iter__(self):
        return iter(self.sites)
