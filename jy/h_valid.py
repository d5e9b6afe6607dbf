from codec import obs, typed
from openquake.commonlib import valid


def build(spec):
    kind = spec[0]
    if kind == 'plain':
        return getattr(valid, spec[1])
    if kind == 'FloatRange':
        return valid.FloatRange(spec[1], spec[2])
    if kind == 'Choice':
        return valid.Choice(*spec[1])
    if kind == 'Regex':
        return valid.Regex(spec[1])
    if kind == 'NoneOr':
        return valid.NoneOr(build(spec[1]))
    raise AssertionError(kind)


def run(spec, texts):
    """What the validator does with each of the texts, in order; one
    validator object for all of them"""
    v = build(spec)
    return [obs(lambda: typed(v(t))) for t in texts]


def numbers(texts):
    """float() and int() of each text, as the interpreter has them"""
    out = []
    for t in texts:
        row = []
        for cast in (float, int):
            try:
                row.append([cast(t)])
            except ValueError:
                row.append(None)
        out.append(row)
    return out


def imt(texts, uni=False):
    if uni:
        texts = [t.decode('utf8') for t in texts]

    def call(t):
        r = valid.IMTstr(t)
        return [typed(r), list(r._fields), r.imt, r.saPeriod, r.saDamping]
    return [obs(call, t) for t in texts]
