"""The structural rules of the NRML schema known to the stand-in"""
N = '{http://openquake.org/xmlns/nrml/0.4}'
TOP = set('''sourceModel logicTree exposureModel vulnerabilityModel
fragilityModel gmfCollection gmfSet hazardCurves hazardMap siteModel
stochasticEventSetCollection stochasticEventSet simpleFaultRupture
complexFaultRupture disaggMatrices uniformHazardSpectra'''.split())
CHILDREN = {
    'logicTree': ['logicTreeBranchingLevel'],
    'logicTreeBranchingLevel': ['logicTreeBranchSet'],
    'logicTreeBranchSet': ['logicTreeBranch'],
    'logicTreeBranch': ['uncertaintyModel', 'uncertaintyWeight'],
    'uncertaintyModel': [],
    'uncertaintyWeight': [],
    'sourceModel': ['areaSource', 'pointSource', 'complexFaultSource',
                    'simpleFaultSource', 'characteristicFaultSource'],
}
REQUIRED = {
    'logicTree': ['logicTreeID'],
    'logicTreeBranchingLevel': ['branchingLevelID'],
    'logicTreeBranchSet': ['branchSetID', 'uncertaintyType'],
    'logicTreeBranch': ['branchID'],
}
for _s in CHILDREN['sourceModel']:
    REQUIRED[_s] = ['id', 'name', 'tectonicRegion']


CONTAINERS = ('logicTree', 'logicTreeBranchingLevel', 'logicTreeBranchSet',
              'logicTreeBranch')


def _walk(el, parent):
    tag = el.tag.replace(N, '', 1)
    if parent is None:
        if el.tag != N + 'nrml':
            yield ('start', el, "No matching global declaration available "
                   "for the validation root.")
    else:
        ptag = parent.tag.replace(N, '', 1)
        allowed = TOP if ptag == 'nrml' else CHILDREN.get(ptag)
        if allowed is not None and tag not in allowed:
            yield 'start', el, 'This element is not expected.'
    for attr in REQUIRED.get(tag, ()):
        if attr not in el.attrib:
            yield 'start', el, ("The attribute '%s' is required but missing."
                                % attr)
    for child in el:
        for v in _walk(child, el):
            yield v
    if tag in CONTAINERS and len(el) < (2 if tag == 'logicTreeBranch' else 1):
        yield 'end', el, 'Missing child element(s).'


def first_violation(root):
    """The event, the element and the message of the first violation in
    document order, or None"""
    for ev, el, msg in _walk(root, None):
        return ev, el, "Element '%s': %s, line %s" % (
            el.tag, msg, el.sourceline)
