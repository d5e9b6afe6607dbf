import os
import random
import collections
from decimal import Decimal
import codec
from codec import obs
import openquake.hazardlib
from openquake.hazardlib import mfd
from openquake.commonlib import logictree


class HC(object):
    def __init__(self, **kw):
        vars(self).update(kw)


def val(x):
    return x.__name__ if isinstance(x, type) else x


def plain(x):
    """values of realizations without classes"""
    if isinstance(x, dict):
        return dict((k, val(v)) for k, v in x.items())
    return val(x)


def real(r):
    return [plain(r.value), r.weight, list(r.lt_path)]


def again(lt):
    """the realizations of an iteration with another one in the middle of it,
    which is not finished, and a complete one"""
    one = iter(lt)
    out = [real(r) for _, r in zip('x', one)]
    for _ in zip('xx', lt):
        pass
    full = [real(r) for r in lt]
    out += [real(r) for r in one]
    return out if out == full else [out, full]


def err(fn):
    """as obs, with what a LogicTreeError says"""
    try:
        return {'ok': fn()}
    except Exception:
        import sys
        e = sys.exc_info()[1]
        out = codec.exc_obs(e)
        for k in ('filename', 'basepath', 'lineno'):
            if hasattr(e, k):
                out[k] = getattr(e, k)
        if out.get('basepath') == codec.WORK:
            out['basepath'] = 'WORK'
        return out


def files_(files):
    for name, content in files.items():
        codec.write(name, content)


def mk_smlt(xml, files, how, validate, seed=0, n=0):
    files_(files)
    if how == 'hc':
        path = codec.write('lt.xml', xml)
        hc = HC(inputs={'source_model_logic_tree': path},
                base_path=codec.WORK, random_seed=seed,
                number_of_logic_tree_samples=n)
        return logictree.SourceModelLogicTree.from_hc(hc)
    if how == 'unicode':
        xml = xml.decode('latin1')
    return logictree.SourceModelLogicTree(
        xml, codec.WORK, 'lt.xml', validate=validate, seed=seed,
        num_samples=n)


def mk_gmpe(xml, trts, how, validate, seed=0, n=0):
    if how == 'hc':
        path = codec.write('lt.xml', xml)
        hc = HC(inputs={'gsim_logic_tree': path},
                base_path=codec.WORK, random_seed=seed,
                number_of_logic_tree_samples=n)
        return logictree.GMPELogicTree.from_hc(hc, trts)
    return logictree.GMPELogicTree(
        trts, xml, codec.WORK, 'lt.xml', validate=validate, seed=seed,
        num_samples=n)


def smlt(xml, files, how='content', validate=True):
    def run():
        lt = mk_smlt(xml, files, how, validate)
        return {'real': [real(r) for r in lt],
                'again': again(lt),
                'ids': sorted(lt.source_ids), 'types': sorted(lt.source_types),
                'trts': sorted(lt.tectonic_region_types)}
    return err(run)


def smlt_sample(xml, files, how, seed, n):
    def run():
        one = mk_smlt(xml, files, how, False, seed, n)
        two = mk_smlt(xml, files, how, False, seed, n)
        return [[real(r) for r in lt] for lt in (one, one, two)]
    return err(run)


def smlt_seeds(xml, files, seeds, n):
    """the samples for several seeds: counts of each path"""
    out = []
    for seed in seeds:
        lt = mk_smlt(xml, files, 'content', False, seed, n)
        out.append([list(r.lt_path) for r in lt])
    return out


class Dice(object):
    def __init__(self, rolls):
        self.rolls = list(rolls)
        self.n = 0

    def random(self):
        self.n += 1
        return self.rolls.pop(0)


def dice(xml, files, rolls):
    """sample_path with the given dice rolls; also the rolls used"""
    def run():
        lt = mk_smlt(xml, files, 'content', False)
        out = []
        for rs in rolls:
            d = Dice(rs)
            name, path = lt.sample_path(d)
            out.append([plain(name), list(path), d.n])
        return out
    return err(run)


Obj = collections.namedtuple('Obj', 'name weight')


def sample(weights, rolls):
    objs = [Obj(i, w) for i, w in enumerate(weights)]

    def run():
        d = Dice(rolls)
        res = logictree.sample(objs, len(rolls), d)
        return [[o.name for o in res], all(o in objs for o in res), d.n]
    return err(run)


# ------------------------------------------------------- uncertainties

KLASS = {'point': 'PointSource', 'area': 'AreaSource',
         'simpleFault': 'SimpleFaultSource',
         'complexFault': 'ComplexFaultSource',
         'characteristicFault': 'CharacteristicFaultSource'}


def mksource(spec):
    cls = getattr(openquake.hazardlib.source, KLASS[spec['type']])
    src = object.__new__(cls)
    src.source_id = spec['id']
    src.tectonic_region_type = spec['trt']
    src.mfd = mkmfd(spec['mfd'])
    return src


def mkmfd(m):
    if m[0] == 'gr':
        return mfd.TruncatedGRMFD(*m[1:])
    return mfd.EvenlyDiscretizedMFD(m[1], m[2], m[3])


def state(m):
    return [type(m).__name__, sorted(
        (k, list(v) if isinstance(v, (list, tuple)) else v)
        for k, v in vars(m).items())]


def mods(m, ops):
    for name, params in ops:
        m.modify(name, params)
    return state(m)


def uncertainties(xml, files, path, sources, ops):
    """The sources after the uncertainties of the path, each of them on its
    own; the same with the modifications `ops` made by hand"""
    def run():
        lt = mk_smlt(xml, files, 'content', False)
        fn = lt.make_apply_uncertainties(path)
        got = []
        for spec in sources:
            src = mksource(spec)
            before = [type(src).__name__, src.source_id,
                      src.tectonic_region_type]
            res = err(lambda: fn(src))
            after = [type(src).__name__, src.source_id,
                     src.tectonic_region_type]
            if 'ok' in res:
                res = {'ok': state(src.mfd)}
            got.append([res, before == after])
        return got
    want = [err(lambda: mods(mkmfd(spec['mfd']), o))
            for spec, o in zip(sources, ops)]
    return {'got': err(run), 'want': want}


def filters(flts, sources):
    """filter_source of branchsets with those filters"""
    srcs = [mksource(s) for s in sources]
    return [[err(lambda: logictree.BranchSet('bGRRelative', f)
                 .filter_source(s)) for s in srcs] for f in flts]


def apply_one(kind, value, flt, source):
    src = mksource(source)
    bs = logictree.BranchSet(kind, flt)
    res = err(lambda: bs.apply_uncertainty(value, src))
    return [res, state(src.mfd)]


# ------------------------------------------------------- gmpe trees

def gmpe(xml, trts, how, validate):
    def run():
        lt = mk_gmpe(xml, trts, how, validate)
        out = [real(r) for r in lt]
        return {'real': out,
                'again': again(lt),
                'maps': [plain(lt.make_trt_to_gsim(p)) for _, _, p in out]}
    return err(run)


def gmpe_sample(xml, trts, seed, n):
    def run():
        lts = [mk_gmpe(xml, trts, 'hc', False, seed, n) for _ in 'ab']
        return [[real(r) for r in lt] for lt in (lts[0], lts[0], lts[1])]
    return err(run)


def gsim(xml, keys, flt='applyToTectonicRegionType'):
    def run():
        lt = logictree.GsimLogicTree(codec.write('gsim.xml', xml), flt, keys)
        return {'real': [real(r) for r in lt],
                'again': again(lt),
                'branches': lt.get_num_branches(),
                'paths': lt.get_num_paths(),
                'values': dict((k, list(v)) for k, v in lt.values.items())}
    return err(run)
