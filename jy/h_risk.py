import codec
from h_ltree import err
from openquake.commonlib import riskloaders as rl


def vf(f):
    return [type(f).__name__, f.imt, f.imls, f.mean_loss_ratios, f.covs,
            f.distribution_name]


def paths_(files):
    return dict((k, codec.write('f%d.xml' % i, v))
                for i, (k, v) in enumerate(sorted(files.items())))


def vulnerability(files, loss_types, insured, retrofitted):
    """get_taxonomy_vfs and get_risk_models on files by key"""
    inputs = paths_(files)
    before = dict(inputs)

    def tax():
        kw = {} if retrofitted is None else dict(retrofitted=retrofitted)
        return [[t, dict((l, vf(f)) for l, f in d.items())]
                for t, d in rl.get_taxonomy_vfs(inputs, loss_types, **kw)]

    def models():
        kw = {}
        if retrofitted is not None:
            kw['retrofitted'] = retrofitted
        if insured is not None:
            kw['insured_losses'] = insured
        d = rl.get_risk_models(inputs, loss_types, **kw)
        return dict((t, [type(m).__name__, m.taxonomy,
                         type(m.workflow).__name__,
                         m.workflow.insured_losses,
                         dict((l, vf(f)) for l, f in
                              m.workflow.vulnerability_functions.items())])
                    for t, m in d.items())
    return [err(tax), err(models), inputs == before]


def types(names):
    return [[rl.loss_type_to_cost_type(n), rl.cost_type_to_loss_type(n),
             rl.cost_type_to_loss_type(rl.loss_type_to_cost_type(n)),
             rl.loss_type_to_cost_type(rl.cost_type_to_loss_type(n))]
            for n in names]


def fragility(xml, twice):
    fname = codec.write('frag.xml', xml)

    def run():
        states, models = rl.get_damage_states_and_risk_models(fname)
        out = {}
        for t, m in models.items():
            ffs = m.workflow.fragility_functions
            dam = ffs['damage']
            out[t] = [type(m).__name__, m.taxonomy,
                      type(m.workflow).__name__, sorted(ffs),
                      isinstance(dam, list), dam.imt,
                      [[type(f).__name__, vars(f)] for f in dam]]
        return [states, out, type(states).__name__]
    one = err(run)
    return [one, err(run) == one]
