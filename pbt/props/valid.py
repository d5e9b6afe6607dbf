import math
import re
from hypothesis import strategies as st
from pbt.core import Prop

# ---------------------------------------------------------------- V01
V01 = Prop('V01', '''batches of texts (numerals in every notation, range
boundaries and their floating-point neighbours, special values, junk) given to
one numeric validator; a batch is non-trivial when it has at least one accepted
and one rejected text''')

BOUNDS = [0.0, 1.0, -1.0, 90.0, -90.0, 180.0, -180.0, 360.0, 0.5]


def neighbours(x):
    return [x, math.nextafter(x, math.inf), math.nextafter(x, -math.inf)]


def fmt(x):
    return st.sampled_from([repr(x), '%.3f' % x, '%e' % x, '+' + repr(x)
                            if x >= 0 else repr(x), ' %r ' % x,
                            '%d' % x if abs(x) < 1e15 else repr(x),
                            '%rE0' % x if 'e' not in repr(x) else repr(x),
                            ('%r' % x).rstrip('0')])


specials = st.sampled_from([
    'nan', 'NaN', '-nan', '+nan', 'inf', '-inf', '+inf', 'Infinity',
    '-Infinity', '', ' ', '1.', '.5', '-.5', '.', '+', '-', '--1', '1 2',
    '1,5', '0x1', '1e', '1e5', '-1e-5', '1e-400', '-1e-400', '1e400',
    '-1e400', '1L', '1j', '1d', '00', '-0', '-0.0', '007', '1.0', '5.0',
    '\t3\n', 'None', 'True', 'one', '180.0000000000001', '90.00000000000001',
    '1.0000000000000002', '-1', '+1', '0', '1', '2', '100', '99999999999999',
    '123456789012345678901234567890', '-123456789012345678901234567890'])
numerals = st.one_of(
    st.integers(-400, 400).map(str),
    st.integers(-10**25, 10**25).map(str),
    st.integers(0, 10**6).map(lambda i: '0' * (i % 3) + str(i)),
    st.floats(-400, 400).flatmap(fmt),
    st.floats(0, 1).flatmap(fmt),
    st.floats(allow_nan=False, allow_infinity=False).map(repr),
    st.sampled_from([y for b in BOUNDS for y in neighbours(b)]).flatmap(fmt))
junk = st.text('0123456789.+-eE naif_xX', max_size=6)
texts = st.one_of(numerals, numerals, specials, junk)


@st.composite
def ranges(draw):
    lo = draw(st.one_of(st.sampled_from(BOUNDS), st.floats(-1e6, 1e6),
                        st.integers(-100, 100)))
    hi = draw(st.one_of(st.just(lo), st.floats(lo, 2e6),
                        st.integers(math.ceil(lo), math.ceil(lo) + 500)))
    return [lo, hi]


@st.composite
def numeric_case(draw):
    kind = draw(st.sampled_from(['longitude', 'latitude', 'positiveint',
                                 'positivefloat', 'probability', 'range']))
    ts = draw(st.lists(texts, min_size=1, max_size=8))
    if kind == 'range':
        lo, hi = draw(ranges())
        ts = ts + draw(st.lists(
            st.sampled_from(neighbours(float(lo)) + neighbours(float(hi)))
            .map(repr), max_size=3))
        return {'spec': ['FloatRange', lo, hi], 'lo': lo, 'hi': hi,
                'none': draw(st.booleans()), 'texts': ts,
                'u': draw(st.booleans())}
    lo, hi = {'longitude': (-180., 180.), 'latitude': (-90., 90.),
              'positiveint': (0, math.inf), 'positivefloat': (0, math.inf),
              'probability': (0, 1)}[kind]
    return {'spec': ['plain', kind], 'lo': lo,
            'hi': None if hi == math.inf else hi,
            'none': draw(st.booleans()), 'texts': ts, 'u': draw(st.booleans())}


def num(x):
    if isinstance(x, dict):
        return float(x['__f'])
    return x


@V01.target(numeric_case(), 6000)
def numeric_validators(ctx, case):
    """a numeric validator returns exactly the number the text denotes when it
    lies in the closed range of the validator and raises ValueError otherwise,
    NaN included; wrapped to accept the empty string it yields None for it"""
    texts = [{'__u': t} for t in case['texts']] if case['u'] \
        else case['texts']
    base = ctx.call('valid.numbers', texts=texts)
    spec = ['NoneOr', case['spec']] if case['none'] else case['spec']
    got = ctx.call('valid.run', spec=spec, texts=texts)
    isint = case['spec'][1] == 'positiveint'
    lo, hi = case['lo'], case['hi']
    good = bad = 0
    for text, (f, i), g in zip(case['texts'], base, got):
        parsed = i if isint else f
        if case['none'] and text == '':
            ctx.equal(g, {'ok': ['NoneType', None]}, 'empty text')
            ctx.label('empty')
            continue
        val = None if parsed is None else num(parsed[0])
        if val is None or not val >= lo or (
                hi is not None and not val <= hi):
            bad += 1
            ctx.label('rejected number' if val is not None else 'not a number')
            ctx.expect('exc' in g and 'ValueError' in g['mro'],
                       '%s of %r: expected ValueError, got %s',
                       case['spec'], text, g)
        else:
            good += 1
            if val in (lo, hi):
                ctx.label('on a boundary')
            ctx.expect('ok' in g and num(g['ok'][1]) == val
                       and g['ok'][0] in (('int', 'long') if isint
                                          else ('float',)),
                       '%s of %r: expected %r, got %s',
                       case['spec'], text, val, g)
    ctx.nontrivial(good and bad)


# ---------------------------------------------------------------- V02
V02 = Prop('V02', '''batches of texts near the accepted language of one token
validator (identifier, identifier list, closed choice, category, boolean,
non-empty, regular expression, optional wrapper); non-trivial when both an
accepted and a rejected text occur''')

ident_like = st.one_of(
    st.from_regex(r'\A[a-zA-Z_][a-zA-Z0-9_]{0,8}\Z'),
    st.from_regex(r'\A[a-zA-Z_0-9][a-zA-Z0-9_ .\-:]{0,5}\Z'),
    st.from_regex(r'\A[a-zA-Z_][a-zA-Z0-9_]{0,3}[\n\t ]\Z'),
    st.from_regex(r'\A[\n\t ][a-zA-Z_][a-zA-Z0-9_]{0,3}\Z'),
    st.from_regex(r'\A[a-z_]{1,3}\n[a-z_]{1,3}\Z'),
    st.sampled_from(['', ' ', '_', '__', '0', '9a', 'a9', 'a-b', 'a.b', '\n',
                     'é', 'aé', 'A1\n', 'x\n', 'x\r', 'x\x00', 'a\x0b']),
    st.text(max_size=5))
RX_NAME = re.compile(r'[a-zA-Z_][a-zA-Z0-9_]*', re.A)
bool_like = st.one_of(st.sampled_from(
    ['0', '1', 'true', 'false', 'True', 'False', 'TRUE', 'FALSE', 'tRue',
     'fAlse', '', '2', '00', '01', 'yes', 'no', ' true', 'true ', 'tru',
     'falsee', '0.0', 'None', 'on']), st.text('01trufalse ', max_size=6))
words = st.sampled_from(['population', 'buildings', 'building', 'Population',
                         'populations', '', 'a', 'b', 'ab', 'aggregated',
                         'per_asset', 'x', ' population', 'p'])


def near(texts):
    """A text, or one that differs from it by some white space or by case"""
    space = st.sampled_from([' ', '\n', '\t', '  '])
    return st.one_of(
        texts, texts, texts, st.tuples(texts, space).map(''.join),
        st.tuples(space, texts).map(''.join), texts.map(str.upper),
        texts.map(str.title))


ATOMS = [('a', 'a'), ('b', 'b'), ('[0-9]', '0123456789'), ('[ab]', 'ab'),
         ('[a-c_]', 'abc_')]


@st.composite
def token_case(draw):
    kind = draw(st.sampled_from(['name', 'namelist', 'category', 'boolean',
                                 'not_empty', 'Choice', 'Regex']))
    many = lambda s: draw(st.lists(s, min_size=1, max_size=8))
    case = {'kind': kind, 'spec': ['plain', kind],
            'none': draw(st.integers(0, 3)) == 0, 'u': draw(st.booleans())}
    if kind == 'name':
        case['texts'] = many(ident_like)
    elif kind == 'namelist':
        seps = st.sampled_from([' ', '  ', '\n', '\t', ' \n '])
        tok = st.one_of(st.from_regex(r'\A[a-zA-Z_][a-zA-Z0-9_]{0,4}\Z'),
                        st.from_regex(r'\A[a-zA-Z_][a-zA-Z0-9_]{0,4}\Z'),
                        st.from_regex(r'\A[a-zA-Z_][a-zA-Z0-9_]{0,4}\Z'),
                        st.sampled_from(['1', 'a-b', '9x', 'x.y', ',']),
                        st.tuples(
                            st.sampled_from(['', 'a', 'x1']),
                            st.sampled_from(';,:|/&+#"\'\\=()[]{}<>!?*@$%^~`'),
                            st.sampled_from(['', 'b', '_', '1'])
                        ).map(''.join))
        one = st.lists(st.tuples(tok, seps), max_size=5).map(
            lambda ps: ''.join(a + b for a, b in ps))
        case['texts'] = many(st.one_of(
            one, one.map(str.strip), one.map(lambda s: ' ' + s),
            st.sampled_from(['', ' ', '\n'])))
    elif kind == 'boolean':
        case['texts'] = many(bool_like)
    elif kind == 'category':
        case['texts'] = many(near(words))
    elif kind == 'not_empty':
        case['texts'] = many(st.one_of(st.just(''), st.just(' '), st.just('0'),
                                       st.text(max_size=4)))
    elif kind == 'Choice':
        choices = draw(st.lists(words, min_size=1, max_size=4))
        case['spec'] = ['Choice', choices]
        case['texts'] = many(near(st.one_of(
            words, st.sampled_from(choices))))
    else:
        parts = draw(st.lists(st.tuples(
            st.sampled_from(range(len(ATOMS))),
            st.sampled_from(['', '?', '*', '+'])), min_size=1, max_size=4))
        body = ''.join(ATOMS[i][0] + q for i, q in parts)
        end = draw(st.booleans())
        case['spec'] = ['Regex', '^' + body + (r'\Z' if end else '')]
        case['texts'] = many(st.one_of(
            st.text('ab01_', max_size=5),
            st.tuples(*[st.text(ATOMS[i][1], min_size=q in ('', '+'),
                                max_size=1 if q in ('', '?') else 2)
                        for i, q in parts]).map(''.join),
            st.from_regex('\\A' + body + '[ab0]?\\Z')))
    # the Jython interpreter has its own idea of exotic white space
    case['texts'] = [t for t in case['texts']
                     if kind != 'namelist' or t.isascii()]
    return case


def token_oracle(case, text):
    """(accepted?, value)"""
    kind = case['kind']
    if case['none'] and text == '':
        return True, None
    if kind == 'name':
        return RX_NAME.fullmatch(text) is not None, text
    if kind == 'namelist':
        toks = text.split()
        return bool(toks) and all(RX_NAME.fullmatch(t) for t in toks), toks
    if kind == 'boolean':
        table = {'0': False, '1': True, 'false': False, 'true': True}
        return text in table, table.get(text)
    if kind == 'category':
        return text in ('population', 'buildings'), text
    if kind == 'not_empty':
        return text != '', text
    if kind == 'Choice':
        return text in case['spec'][1], text
    return re.match(case['spec'][1], text) is not None, text


def untype(t):
    if t[0] in ('list', 'tuple'):
        return [untype(x) for x in t[1]]
    return t[1]


@V02.target(token_case(), 6000)
def token_validators(ctx, case):
    """a token validator returns the text (or the value it stands for) exactly
    for the texts of its language and raises ValueError for all others"""
    texts = [{'__u': t} for t in case['texts']] if case['u'] \
        else case['texts']
    spec = ['NoneOr', case['spec']] if case['none'] else case['spec']
    got = ctx.call('valid.run', spec=spec, texts=texts)
    good = bad = 0
    ctx.label(case['kind'])
    for text, g in zip(case['texts'], got):
        accepted, value = token_oracle(case, text)
        if accepted:
            good += 1
            ctx.expect('ok' in g, '%s of %r: refused with %s', spec, text, g)
            ctx.equal(untype(g['ok']), value, '%s of %r' % (spec, text))
        else:
            bad += 1
            ctx.expect('exc' in g and 'ValueError' in g['mro'],
                       '%s of %r: expected ValueError, got %s', spec, text, g)
    if good and bad:
        ctx.label(case['kind'] + ': both')
    ctx.nontrivial(good and bad)


# ---------------------------------------------------------------- V03
V03 = Prop('V03', '''batches of texts around the intensity measure type
grammar; non-trivial when both accepted and rejected texts occur''')
PLAIN = ['PGA', 'PGV', 'PGD', 'IA', 'RSD', 'MMI']
period = st.one_of(
    st.integers(0, 500).map(str), st.integers(0, 99).map(lambda i: '%d.' % i),
    st.floats(0, 1e4).map(lambda x: '%.6f' % x),
    st.floats(0, 100).map(lambda x: '%.17f' % x),
    st.sampled_from(['0', '0.0', '00.10', '1', '1.', '0.1', '10', '007']))
bad_period = st.sampled_from(['', '.5', '-1', '+1', '1e3', ' 1', '1 ', '1,0',
                              '1.2.3', 'x', '1f', 'nan', 'inf', '.', '1-', '\u0661',
                              '1.\uff12', '\xb2'])
good_imt = st.one_of(st.sampled_from(PLAIN),
                     period.map(lambda p: 'SA(%s)' % p))
deco = st.sampled_from(['', ' ', 'x', '\n', ')', '(1)', 'PGA', '|', '1',
                        '_', '(0.1)', '\t'])
imt_text = st.one_of(
    good_imt, good_imt,
    st.tuples(good_imt, deco).map(''.join),
    st.tuples(deco, good_imt).map(''.join),
    bad_period.map(lambda p: 'SA(%s)' % p),
    good_imt.map(str.lower), good_imt.map(lambda s: s[:-1]),
    st.sampled_from(['', 'SA', 'SA()', 'SA(1', 'SA1)', 'S(1)', 'A', 'PG',
                     'MM', 'MMII', 'SA((1))', 'SA[1]', 'AI', 'SA (1)']),
    st.text('PGAVDISRM(1.0)', max_size=7))
RX_IMT = re.compile(r'(PGA|PGV|PGD|IA|RSD|MMI)|SA\(([0-9]+\.?[0-9]*)\)')


@V03.target(st.fixed_dictionaries({
    'texts': st.lists(imt_text, min_size=1, max_size=10),
    'uni': st.booleans()}), 5000)
def imt_strings(ctx, case):
    """an intensity measure type is accepted only as one of the six plain names
    or SA(period); the parts are its name, period and the 5% damping"""
    got = ctx.call('valid.imt', texts=case['texts'], uni=case['uni'])
    good = bad = 0
    for text, g in zip(case['texts'], got):
        mo = RX_IMT.fullmatch(text)
        if mo is None:
            bad += 1
            ctx.expect('exc' in g and 'ValueError' in g['mro'],
                       'IMT %r: expected ValueError, got %s', text, g)
            continue
        good += 1
        if mo.group(1):
            want = [text, None, None]
            ctx.label('plain')
        else:
            want = ['SA', float(mo.group(2)), 5.0]
            ctx.label('SA')
        ctx.expect('ok' in g, 'IMT %r refused: %s', text, g)
        typ, fields, a, b, c = g['ok']
        ctx.equal(fields, ['imt', 'saPeriod', 'saDamping'], 'fields')
        ctx.equal([a, b, c], want, 'IMT %r' % text)
        if not case['uni']:
            ctx.equal(untype(typ), want, 'IMT %r as a tuple' % text)
    ctx.nontrivial(good and bad)
