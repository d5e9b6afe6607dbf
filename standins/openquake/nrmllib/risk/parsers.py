"""Stand-in for openquake.nrmllib.risk.parsers"""
from lxml import etree
from openquake import nrmllib

N = '{%s}' % nrmllib.NAMESPACE


def _floats(text):
    return [float(x) for x in text.split()]


class VulnerabilityModelParser(object):
    """Iterates over dictionaries, one per vulnerability function"""

    def __init__(self, source):
        self.source = source

    def __iter__(self):
        root = etree.parse(self.source).getroot()
        for vset in root.iter(N + 'discreteVulnerabilitySet'):
            iml = vset.find(N + 'IML')
            imls = _floats(iml.text)
            for vf in vset.findall(N + 'discreteVulnerability'):
                yield dict(
                    vulnerabilitySetID=vset.get('vulnerabilitySetID'),
                    assetCategory=vset.get('assetCategory'),
                    lossCategory=vset.get('lossCategory'),
                    IMT=iml.get('IMT'), IML=imls,
                    ID=vf.get('vulnerabilityFunctionID'),
                    probabilisticDistribution=vf.get(
                        'probabilisticDistribution'),
                    lossRatio=_floats(vf.find(N + 'lossRatio').text),
                    coefficientsVariation=_floats(
                        vf.find(N + 'coefficientsVariation').text))


class FragilityModelParser(object):
    """
    Iterates over (format, limit_states) first, then over the tuples
    (taxonomy, iml, params, no_damage_limit)
    """
    def __init__(self, source):
        self.source = source

    def __iter__(self):
        root = etree.parse(self.source).getroot()
        fm = root.find(N + 'fragilityModel')
        fmt = fm.get('format')
        limit_states = fm.find(N + 'limitStates').text.split()
        yield fmt, limit_states
        for ffs in fm.findall(N + 'ffs'):
            taxonomy = ffs.find(N + 'taxonomy').text.strip()
            iml_el = ffs.find(N + 'IML')
            ndl = ffs.get('noDamageLimit')
            ndl = float(ndl) if ndl else None
            iml = dict(IMT=iml_el.get('IMT'), imls=None)
            params = []
            if fmt == 'discrete':
                iml['imls'] = _floats(iml_el.text)
                for ls, ffd in zip(limit_states, ffs.findall(N + 'ffd')):
                    assert ls == ffd.get('ls'), (ls, ffd.get('ls'))
                    params.append(_floats(ffd.find(N + 'poEs').text))
            else:
                for ls, ffc in zip(limit_states, ffs.findall(N + 'ffc')):
                    assert ls == ffc.get('ls'), (ls, ffc.get('ls'))
                    p = ffc.find(N + 'params')
                    params.append((float(p.get('mean')),
                                   float(p.get('stddev'))))
            yield taxonomy, iml, params, ndl
