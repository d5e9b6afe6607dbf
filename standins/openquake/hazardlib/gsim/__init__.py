import collections
from openquake.hazardlib.gsim.base import GroundShakingIntensityModel, GMPE


def _make(names):
    dic = {}
    for n in names:
        dic[n] = type(n, (GMPE,), {'__module__': __name__})
    return dic

_GSIMS = _make('''AkkarBommer2010 AkkarCagnan2010 AtkinsonBoore2003SInter
AtkinsonBoore2003SSlab AtkinsonBoore2006 BindiEtAl2011 BooreAtkinson2008
Campbell2003SHARE CampbellBozorgnia2008 CauzziFaccioli2008 FaccioliEtAl2010
GarciaEtAl2005SSlab LinLee2008SInter LinLee2008SSlab ToroEtAl2002
ToroEtAl2002SHARE TravasarouEtAl2003 YoungsEtAl1997SInter YoungsEtAl1997SSlab
ZhaoEtAl2006Asc ZhaoEtAl2006SInter ZhaoEtAl2006SSlab'''.split())
globals().update(_GSIMS)


def get_available_gsims():
    from openquake.hazardlib.gsim.sadigh_1997 import SadighEtAl1997
    from openquake.hazardlib.gsim.chiou_youngs_2008 import ChiouYoungs2008
    dic = dict(_GSIMS)
    dic['SadighEtAl1997'] = SadighEtAl1997
    dic['ChiouYoungs2008'] = ChiouYoungs2008
    return collections.OrderedDict(sorted(dic.items()))
