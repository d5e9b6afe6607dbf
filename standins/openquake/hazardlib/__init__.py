"""Stand-in for openquake.hazardlib (early 2014)"""
from openquake.hazardlib import (
    const, correlation, geo, gsim, imt, mfd, pmf, scalerel, site, source, tom)
