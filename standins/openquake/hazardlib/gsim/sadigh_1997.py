from openquake.hazardlib.gsim.base import GMPE


class SadighEtAl1997(GMPE):
    pass
