"""Risk models: K01, K02"""
from hypothesis import strategies as st

from pbt import models
from pbt.core import Prop
from pbt.models import nrml, sub, subs

# ---------------------------------------------------------------- K01
K01 = Prop('K01', '''vulnerability models of one to six loss types, with the
same and different taxonomies, retrofitted or not, some of them wrong
(repeated taxonomies, covariances without loss ratio, negative numbers, levels
that do not increase, lists of different lengths). Non-trivial: a taxonomy
with functions for two loss types and another one with fewer''')

TYPES = ['structural', 'nonstructural', 'contents', 'fatalities',
         'business_interruption', 'occupants']


def floats(text):
    return [float(x) for x in text.split()]


def functions(node):
    """[(taxonomy, function)] in the order of the file"""
    out = []
    for s in node[3]:
        iml = sub(s, 'IML')
        for f in subs(s, 'discreteVulnerability'):
            out.append((f[1]['vulnerabilityFunctionID'], [
                'VulnerabilityFunction', iml[1]['IMT'], floats(iml[2]),
                floats(sub(f, 'lossRatio')[2]),
                floats(sub(f, 'coefficientsVariation')[2]),
                f[1]['probabilisticDistribution']]))
    return out


TAX = ['RC', 'W', 'A', 'RC/DMRF', 'b 1', 'x', 'y', 'z', 'MS', 'PK', 'T1', 'T2']


def rename(draw, node):
    """Distinct taxonomies out of a few, as in real models"""
    n = sum(len(subs(s, 'discreteVulnerability')) for s in node[3])
    names = iter(draw(st.permutations(TAX[:max(n, 4)])))
    for s in node[3]:
        for f in subs(s, 'discreteVulnerability'):
            f[1]['vulnerabilityFunctionID'] = next(names)
    return node


@st.composite
def vuln(draw):
    return rename(draw, draw(models.vulnerability(
        nmax=3).filter(lambda n: n[3] or draw(st.booleans()))))


def break_(draw, node):
    """A wrong function: its taxonomy and why"""
    fs = [f for s in node[3] for f in subs(s, 'discreteVulnerability')]
    how = draw(st.sampled_from(['repeated', 'cov', 'levels', 'negative',
                                'length']))
    if how == 'repeated' and len(fs) > 1:
        i, j = sorted(draw(st.permutations(range(len(fs))))[:2])
        fs[j][1]['vulnerabilityFunctionID'] = \
            fs[i][1]['vulnerabilityFunctionID']
        return ['repeated', fs[i][1]['vulnerabilityFunctionID']]
    f = draw(st.sampled_from(fs))
    n = len(sub(f, 'lossRatio')[2].split())
    if how == 'negative':
        tag = draw(st.sampled_from(['lossRatio', 'coefficientsVariation']))
        sub(f, tag)[2] = ' '.join(['-0.5'] * n)
        return [how, f[1]['vulnerabilityFunctionID']]
    if how == 'length':
        tag = draw(st.sampled_from(['lossRatio', 'coefficientsVariation']))
        sub(f, tag)[2] += ' 0'
        return [how, f[1]['vulnerabilityFunctionID']]
    if how == 'levels' and n > 1:
        [s] = [s for s in node[3] if f in s[3]]
        f = subs(s, 'discreteVulnerability')[0]     # the first to be refused
        iml = sub(s, 'IML')
        ls = iml[2].split()
        k = draw(st.integers(1, n - 1))
        if draw(st.booleans()):
            ls[k] = ls[k - 1]
        else:
            ls[k - 1:k + 1] = ls[k], ls[k - 1]
        iml[2] = ' '.join(ls)
        return [how, f[1]['vulnerabilityFunctionID']]
    k = draw(st.integers(0, n - 1))
    for tag, x in (('lossRatio', '0'), ('coefficientsVariation', '0.5')):
        e = sub(f, tag)
        vals = e[2].split()
        vals[k] = x
        e[2] = ' '.join(vals)
    return ['cov', f[1]['vulnerabilityFunctionID']]


@st.composite
def vuln_cases(draw):
    loss = draw(st.permutations(TYPES))[:draw(st.sampled_from(
        [2, 3, 1, 4, 5, 6]))]
    files = {}
    wrong = None
    for lt in sorted(set(loss + [draw(st.sampled_from(TYPES))])):
        for retro in ('', '_retrofitted'):
            if draw(st.integers(0, 5)):
                files[cost(lt) + '_vulnerability' + retro] = draw(vuln())
    retrofitted = draw(st.sampled_from([None, False, True, True]))
    read = [k for k in keys(loss, retrofitted) if k in files
            and files[k][3]]
    if read and draw(st.integers(0, 3)) == 0:
        k = draw(st.sampled_from(read))
        wrong = [k] + break_(draw, files[k])
    return {'loss': loss, 'files': files, 'retrofitted': retrofitted,
            'insured': draw(st.sampled_from([None, True, False])),
            'wrong': wrong}


def cost(lt):
    return 'occupants' if lt == 'fatalities' else lt


def keys(loss, retrofitted):
    return [cost(lt) + '_vulnerability' + (
        '_retrofitted' if retrofitted else '') for lt in loss]


def is_error(ctx, res, tax, how):
    ctx.equal(res.get('exc'), 'ValueError', 'a wrong function: ' + how)
    ctx.expect(tax in res['msg'], 'taxonomy %s not in the message: %s', tax,
               res['msg'])
    if how == 'cov':
        ctx.expect('loss ratio = 0.0' in res['msg'],
                   'no reason in the message: %s', res['msg'])


@K01.target(vuln_cases(), 600)
def vulnerability(ctx, case):
    """Each taxonomy has the functions of its loss types"""
    tax, mods, same = ctx.call(
        'risk.vulnerability',
        files={k: nrml(v) for k, v in case['files'].items()},
        loss_types=case['loss'], insured=case['insured'],
        retrofitted=case['retrofitted'])
    ctx.expect(same, 'the inputs were changed')
    if case['wrong']:
        _, how, t = case['wrong']
        ctx.label(how)
        is_error(ctx, tax, t, how)
        is_error(ctx, mods, t, how)
        return
    want = {}
    for lt, k in zip(case['loss'], keys(case['loss'], case['retrofitted'])):
        if k in case['files']:
            for t, f in functions(case['files'][k]):
                want.setdefault(t, {})[lt] = f
    ctx.nontrivial(len({len(v) for v in want.values()}) > 1)
    ctx.expect('ok' in tax, 'get_taxonomy_vfs failed: %s', tax)
    ctx.equal(len(tax['ok']), len(want), 'number of taxonomies')
    ctx.equal(dict(map(tuple, tax['ok'])), want, 'functions by taxonomy')
    ctx.expect('ok' in mods, 'get_risk_models failed: %s', mods)
    ctx.equal(mods['ok'], {t: ['RiskModel', t, 'Scenario',
                               bool(case['insured']), fs]
                           for t, fs in want.items()}, 'risk models')


@K01.target(st.lists(st.sampled_from(TYPES + ['a', '', 'occupant', 'Fatalities']
                                     ), max_size=6, unique=True), 30)
def types(ctx, case):
    """fatalities are the losses of the occupants"""
    ctx.nontrivial(len(case) > 2)
    for n, (c, t, a, b) in zip(case, ctx.call('risk.types', names=case)):
        ctx.equal([c, t], [cost(n), 'fatalities' if n == 'occupants' else n],
                  n)
        if n != 'occupants':
            ctx.equal(a, n, 'back from the cost type of ' + n)
        if n != 'fatalities':
            ctx.equal(b, n, 'back from the loss type of ' + n)


# ---------------------------------------------------------------- K02
K02 = Prop('K02', '''fragility models of both formats with one to four limit
states and zero to three taxonomies, with and without a limit for no damage.
Non-trivial: at least two taxonomies and two limit states''')


@st.composite
def frag(draw):
    node = draw(models.fragility())
    names = draw(st.permutations(TAX))
    for f, n in zip(subs(node, 'ffs'), names):
        sub(f, 'taxonomy')[2] = n
        if draw(st.integers(0, 4)) == 0:
            f[1]['noDamageLimit'] = draw(st.sampled_from(['0', '0.0']))
    ffs = subs(node, 'ffs')
    if len(ffs) > 1 and draw(st.integers(0, 5)) == 0:
        i, j = draw(st.permutations(range(len(ffs))))[:2]
        sub(ffs[i], 'taxonomy')[2] = sub(ffs[j], 'taxonomy')[2]
    return node


@K02.target(frag(), 600)
def fragility(ctx, node):
    """Each taxonomy has one fragility function for each limit state"""
    fmt = node[1]['format']
    ctx.label(fmt)
    states = sub(node, 'limitStates')[2].split()
    res, again = ctx.call('risk.fragility', xml=nrml(node), twice=True)
    names = [sub(f, 'taxonomy')[2] for f in subs(node, 'ffs')]
    twice = [n for n in names if names.count(n) > 1]
    if twice:
        ctx.label('repeated')
        is_error(ctx, res, twice[0], 'repeated taxonomy')
        return
    ctx.expect('ok' in res, 'failed: %s', res)
    got_states, got, kind = res['ok']
    ctx.equal([kind, got_states], ['list', ['no_damage'] + states],
              'damage states')
    want = {}
    for f in subs(node, 'ffs'):
        t = sub(f, 'taxonomy')[2]
        iml = sub(f, 'IML')
        ndl = f[1].get('noDamageLimit')
        ffs = []
        if fmt == 'discrete':
            for ffd in subs(f, 'ffd'):
                imls, poes = floats(iml[2]), floats(sub(ffd, 'poEs')[2])
                limit = imls[0]
                if ndl is not None:
                    ctx.label('no damage limit')
                    limit = float(ndl)
                    imls, poes = [limit] + imls, [0.0] + poes
                ffs.append(['FragilityFunctionDiscrete', {
                    'imls': imls, 'poes': poes, 'no_damage_limit': limit}])
        else:
            for ffc in subs(f, 'ffc'):
                p = sub(ffc, 'params')[1]
                ffs.append(['FragilityFunctionContinuous', {
                    'mean': float(p['mean']), 'stddev': float(p['stddev'])}])
        want[t] = ['RiskModel', t, 'Damage', ['damage'], True,
                   iml[1]['IMT'], ffs]
    ctx.nontrivial(len(want) > 1 and len(states) > 1)
    ctx.equal(got, want, 'risk models')
    ctx.expect(again, 'loading again gives something else')
