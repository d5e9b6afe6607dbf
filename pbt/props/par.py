"""Running tasks: P01-P04"""
import math

from hypothesis import strategies as st

from pbt.core import Prop, canon

ENVS = st.sampled_from([None, None, '1', 'true', 'TRUE', 'Yes', 'yes', '',
                        '0', 'no', 'false', 'on', '10', ' 1', 'y'])


def serial(env):
    return (env or '').lower() in ('1', 'true', 'yes')


ints = st.integers(-5, 100)
texts = st.text('ab %é', max_size=4)
leaf = st.one_of(ints, texts, st.none(), st.booleans(),
                 st.integers(-9, 9).map(lambda i: i / 4))
values = st.recursive(leaf, lambda k: st.one_of(
    st.lists(k, max_size=3), st.dictionaries(st.text('abc', max_size=2), k,
                                             max_size=3)), max_leaves=6)
EXCS = ['ValueError', 'KeyError', 'Boom', 'Odd', 'RuntimeError',
        'StopIteration', 'AttributeError', 'TypeError', 'Falsy', 'Old']
MSGS = ['wrong value', '', '100%', "it's %s", 'a\nb', 'x' * 50]


@st.composite
def task(draw, n, raises):
    """The arguments of a call, and its result: ['ok', value] or ['exc',
    name, message]"""
    k = draw(st.integers(0, 11))
    if k < 4:
        a = draw(st.lists(ints, max_size=4))
        return [n, 'sum'] + a, ['ok', sum(a)]
    if k < 6:
        a = draw(st.lists(values, max_size=3))
        return [n, 'list'] + a, ['ok', a]
    if k < 8:
        a, b = draw(st.lists(values, max_size=3)), draw(values)
        return [n, 'append', a, b], ['ok', a + [b]]
    if k == 8:
        return [n, 'none'], ['ok', None]
    if k == 9:
        v = draw(values)
        return [n, 'pair', v], ['ok', [v, 'ValueError']]
    if not raises:
        return [n, 'sum', 1], ['ok', 1]
    e, m = draw(st.sampled_from(EXCS)), draw(st.sampled_from(MSGS))
    return [n, 'raise', e, m], ['exc', e, m]


@st.composite
def tasks(draw, nmax=8, start=0):
    raises = draw(st.integers(0, 3)) == 0
    return [draw(task(start + i, raises))
            for i in range(draw(st.integers(0, nmax)))]


SCHEDULE = st.lists(st.integers(0, 20), max_size=12)

# ---------------------------------------------------------------- P01
P01 = Prop('P01', '''lists of zero to eight calls, each returning a number, a
list, None, a pair or raising one of eight exceptions, run in the process or
on an executor whose completion order is generated; histories of submissions,
aggregations and waits. Non-trivial: at least three calls, not completed in
the order of submission unless in process; histories aggregating twice''',
           ['the executor is a stand-in running the calls in the process on '
            'pickled copies, in any order'])


def bag(vals):
    return sorted(canon(v) for v in vals)


def check_error(ctx, res, failed, order):
    """res is the RuntimeError of one of the failed tasks"""
    ctx.equal(res.get('exc'), 'RuntimeError', 'error of a task')
    if order:
        failed = failed[:1]
    ctx.expect(any(described(res['msg'], f) for f in failed),
               'the error of the task is not in the message: %s, %s',
               res['msg'], failed)


def described(msg, f):
    name, text = f[1:]
    if name == 'KeyError':
        text = repr(text)
    elif name == 'Odd':
        text = 'odd ' + text
    return '%s: %s' % (name, text) in msg and 'inner_function' in msg


@P01.target(st.fixed_dictionaries({
    'env': ENVS, 'tasks': tasks(), 'func': st.sampled_from(
        ['work', 'work', 'other_work', 'noargs']),
    'acc': st.lists(values, max_size=2), 'schedule': SCHEDULE,
    'name': st.sampled_from([None, None, 'my task']),
    'how': st.sampled_from(['list', 'gen', 'lists', 'tuple']),
    'again': st.lists(st.integers(0, 7), max_size=3),
    'many': st.sampled_from([0] * 7 + [1]).flatmap(
        lambda k: st.integers(5, 270) if k else st.just(0)),
    'falsy': st.one_of(st.just(False), st.just(False), st.lists(
        st.sampled_from([None, 0, '', False, 5, 'x']), min_size=1,
        max_size=3))}), 1200)
def reducing(ctx, case):
    """map_reduce is the reduction of all the results"""
    func = case['func']
    calls = list(case['tasks'])
    if case['many']:
        ctx.label('many tasks')
        calls += [([100 + i, 'sum', i, 1], ['ok', i + 1])
                  for i in range(case['many'])]
    for i in case['again']:     # the same arguments again
        i %= len(calls) or 1
        if calls and calls[i][0][1:2] != ['append']:
            calls.insert(i, calls[i])
    if func == 'noargs':
        calls = [([], ['ok', 'nothing']) for _ in calls]
    n = len(calls)
    order = serial(case['env'])
    out = ctx.call('parallel.map_reduce', env=case['env'], func=func,
                   args=[c[0] for c in calls], acc=case['acc'],
                   name=case['name'], schedule=case['schedule'],
                   how=case['how'], falsy=case['falsy'])
    ctx.label('in process' if order else 'distributed')
    res = out['res']
    want = [r[1] for _, r in calls if r[0] == 'ok']
    failed = [r for _, r in calls if r[0] == 'exc']
    ctx.nontrivial(n > 2 and (order or any(case['schedule'][:n])))
    ctx.equal(out['acc'], case['acc'], 'the initial accumulator')
    ctx.equal(out['bad'], [], 'calls of agg with another accumulator')
    ids = [c[0][0] if c[0] else None for c in calls]
    k = case['name'] or func
    texts = [m for lev, m in out['log'] if lev == 'INFO']
    if failed:
        ctx.label('failed')
        check_error(ctx, res, failed, order)
        ctx.expect(set(out['calls']) <= set(ids) and
                   len(out['calls']) <= n, 'calls: %s', out['calls'])
        return
    ctx.expect('ok' in res, 'map_reduce failed: %s', res)
    got = res['ok']
    m = len(case['acc'])
    ctx.equal(out['n'], n, 'number of aggregations')
    falsy = case['falsy']
    if falsy is not False:
        ctx.label('accumulators of any type')
        ctx.equal(got, falsy[(n - 1) % len(falsy)] if n else case['acc'],
                  'last accumulator')
        got = case['acc'] + out['vals']
    ctx.equal(got[:m], case['acc'], 'the accumulator at the beginning')
    if order:
        ctx.equal(got[m:], want, 'results in order')
        ctx.equal(out['calls'], ids, 'calls')
    else:
        ctx.equal(bag(got[m:]), bag(want), 'results in any order')
        ctx.equal(sorted(out['calls'], key=repr), sorted(ids, key=repr),
                  'calls')
    ctx.expect('spawned %d tasks of kind %s' % (n, k) in texts,
               'messages: %s', texts)
    ctx.equal(texts.count(k + ' 100%'), 1 if n else 0, 'end in the log')


@st.composite
def histories(draw):
    ops = []
    i = 0
    for _ in range(draw(st.integers(1, 8))):
        k = draw(st.integers(0, 5))
        if k < 3:
            for t in draw(tasks(nmax=3, start=i)):
                ops.append(['submit', t[0], t[1]])
                i += 1
        elif k < 5:
            ops.append(['aggregate', draw(st.lists(ints, max_size=2))])
        else:
            ops.append(['wait'])
    return {'env': draw(ENVS), 'name': draw(st.sampled_from(
        ['', 'my task'])), 'ops': ops + [['aggregate', []]],
        'schedule': draw(SCHEDULE)}


@P01.target(histories(), 600)
def manager(ctx, case):
    """A manager aggregates each task it was given once"""
    order = serial(case['env'])
    out = ctx.call('parallel.manager', env=case['env'], name=case['name'],
                   ops=[o[:2] for o in case['ops']],
                   schedule=case['schedule'])
    name = case['name'] or 'work'
    pending = []
    done = 0
    for op, (res, msgs, calls) in zip(case['ops'], out):
        if op[0] == 'submit':
            ctx.expect('ok' in res, 'submit failed: %s', res)
            pending.append(op)
            if order:
                ctx.equal(calls, [op[1][0]], 'calls at submission')
            continue
        failed = [p[2] for p in pending if p[2][0] == 'exc']
        n = len(pending)
        if failed:
            ctx.label('failed')
            check_error(ctx, res, failed, order)
            return  # what follows is not specified
        ctx.expect('ok' in res, '%s failed: %s', op[0], res)
        ctx.equal(msgs[:1], ['spawned %d tasks of kind %s' % (n, name)],
                  'first message')
        ctx.equal(msgs[-1:] == [name + ' 100%'], n > 0, 'last message')
        if op[0] == 'wait':
            ctx.label('wait')
            ctx.equal(res['ok'], n, 'number of tasks waited for')
        else:
            want = [p[2][1] for p in pending]
            m = len(op[1])
            ctx.equal(res['ok'][:m], op[1], 'initial accumulator')
            ctx.equal(bag(res['ok'][m:]), bag(want), 'results')
            if order:
                ctx.equal(res['ok'][m:], want, 'results in order')
        ctx.equal(sorted(calls), [] if order else
                  [p[1][0] for p in pending], 'calls')
        done += n > 0
        pending = []
    ctx.nontrivial(done > 1)


@P01.target(st.lists(st.one_of(ENVS, st.text('trueyesTRUE1', max_size=4)),
                     min_size=1, max_size=20), 40)
def environment(ctx, case):
    """OQ_NO_DISTRIBUTE is 1, true or yes in any case"""
    ctx.nontrivial(any(map(serial, case)))
    ctx.equal(ctx.call('parallel.no_distribute', values=case),
              [serial(v) for v in case], 'no_distribute')


# ---------------------------------------------------------------- P02
P02 = Prop('P02', '''calls of a function returning a value or raising an
exception (with texts of any kind), pickled or not; values of any type
pickled; sequences of one to five objects, some already pickled, with
repetitions. Non-trivial: a call which raises, a container, a sequence with
repeated objects''')


@P02.target(st.fixed_dictionaries({
    'task': task(0, False), 'pickle': st.sampled_from([None, False, True]),
    'exc': st.one_of(st.none(), st.tuples(
        st.sampled_from(EXCS), st.one_of(
            st.sampled_from(MSGS),
            st.text('abé\u20ac %', max_size=5),
            st.text('abé\u20ac', max_size=5).map(lambda s: {'__u': s}))
    ).map(list))}), 800)
def safely(ctx, case):
    """Calling safely gives the value or the error"""
    args, want = case['task']
    pickle, exc = case['pickle'], case['exc']
    res, calls = ctx.call('parallel.safely', func='work', args=args,
                          pickle=pickle, exc=exc)
    ctx.expect('ok' in res, 'safely_call raised %s for %s', res, exc)
    kind, vtype, val, ename, same = res['ok']
    ctx.equal(kind, 'Pickled' if pickle else 'tuple', 'type of the result')
    ctx.equal(calls, [0], 'calls')
    if exc is None:
        ctx.equal(ename, 'ValueError' if args[1] == 'pair' and False else
                  None, 'exception')
        if args[1] != 'pair':
            ctx.equal(val, want[1], 'value')
        return
    ctx.nontrivial(True)
    ctx.equal(ename, exc[0], 'type of the exception')
    ctx.expect(same, 'another exception class')
    text = exc[1]
    if isinstance(text, dict):
        ctx.label('unicode')
        text = text['__u']
        if not text.isascii():
            ctx.label('not ASCII')
            text = ''
    elif exc[0] == 'KeyError' and not text.isascii():
        text = ''
    ctx.expect(vtype in ('str', 'unicode'), 'message of type %s', vtype)
    if exc[0] == 'KeyError':
        text = text.replace("'", '').replace('\n', '\\n')
        val = val.replace("'", '').replace('"', '')
    elif exc[0] == 'Odd':
        text = ('odd ' + text) if text else ''
    for t in ('inner_function', 'work', exc[0], text):
        ctx.expect(t in val, '%s not in the message %s', t, val)


# equal but different
alike = st.sampled_from([0, 1, 2, 0.0, 1.0, 2.0, False, True, '', '1', 'a',
                     {'__u': 'a'}, {'__u': ''}, {'__t': [1, 2]},
                     {'__t': [1.0, True]}, {'__t': []}]).map(
        lambda v: ['json', v])
specs = st.one_of(
    alike,
    values.map(lambda v: ['json', v]),
    st.integers(0, 5000).map(lambda n: ['big', n]),
    st.lists(ints, max_size=3).map(lambda v: ['set', v]),
    st.tuples(ints, texts).map(lambda v: ['pair', list(v)]),
    st.lists(st.tuples(texts, ints).map(list), max_size=3).map(
        lambda v: ['odict', v]),
    st.just(['cls', None]))


@P02.target(specs, 300)
def pickling(ctx, case):
    """A pickled object has its size and gives it back"""
    res = ctx.call('parallel.pickled', spec=case)
    ctx.expect('ok' in res, 'failed: %s', res)
    equal, same_type, size, want, text, name, again, fresh = res['ok']
    ctx.nontrivial(case[0] != 'json' or isinstance(case[1], (list, dict)))
    ctx.expect(equal and same_type and again, 'another object comes back')
    ctx.expect(fresh, 'the same object comes back twice')
    ctx.expect(size >= 0 and size == want, 'size %s, expected %s', size, want)
    ctx.equal(text, '<Pickled %s %dK>' % (name, size // 1024), 'repr')


@P02.target(st.one_of(
    st.lists(specs, min_size=1, max_size=5),
    st.lists(alike, min_size=2, max_size=5)).flatmap(
    lambda pool: st.fixed_dictionaries({
        'pool': st.just(pool),
        'picks': st.lists(st.integers(0, len(pool) - 1), max_size=8),
        'how': st.sampled_from(['list', 'tuple', 'gen']),
        'pre': st.lists(st.integers(0, len(pool) - 1), unique=True,
                        max_size=3)})), 400)
def sequences(ctx, case):
    """Each object of a sequence is pickled once"""
    res = ctx.call('parallel.sequence', **case)
    ctx.expect('ok' in res, 'failed: %s', res)
    res = res['ok']
    picks = case['picks']
    ctx.nontrivial(len(set(picks)) < len(picks) and len(set(picks)) > 1)
    ctx.equal(res['n'], len(picks), 'length')
    ctx.equal(res['type'], 'list', 'type')
    ctx.expect(res['pickled'], 'some objects are not pickled')
    ctx.equal(res['equal'], [True] * len(picks), 'objects unpickled')
    ctx.equal(res['kept'], [i in case['pre'] for i in picks],
              'pickled objects left as they are')
    for i, a in enumerate(picks):
        for j, b in enumerate(picks):
            if a == b:
                ctx.equal(res['which'][i], res['which'][j],
                          'object %d pickled again' % a)


# ---------------------------------------------------------------- P03
P03 = Prop('P03', '''numbers of tasks from 1 to 2000 and names; non-trivial
from 3 tasks on''')


@P03.target(st.tuples(st.one_of(st.integers(1, 12), st.integers(1, 300),
                                st.integers(1, 2000)),
                      st.sampled_from(['task', 'my task', 'x'])), 250)
def percent(ctx, case):
    """The progress is reported whenever the percentage grows"""
    todo, name = case
    out = ctx.call('parallel.percent', name=name, todo=todo, calls=todo)
    ctx.nontrivial(todo > 2)
    ctx.equal([v for v, _ in out], list(range(todo + 1)), 'calls done')
    ctx.equal(out[0][1], ['spawned %d tasks of kind %s' % (todo, name)],
              'first message')
    prev = 0
    for done, msgs in out[1:]:
        exact = 100 * done / todo
        if not msgs:
            ctx.expect(exact < prev + 1 + 1e-6,
                       'no message at %s%%, the last one was %s%%', exact,
                       prev)
            continue
        ctx.equal(len(msgs), 1, 'messages of a call')
        ctx.expect(msgs[0].startswith(name + ' ') and msgs[0].endswith('%'),
                   'message %s', msgs[0])
        p = int(msgs[0][len(name):-1])
        ctx.equal(msgs[0], '%s %3d%%' % (name, p), 'message')
        ctx.expect(p > prev and exact - 1 - 1e-6 < p <= exact + 1e-6,
                   '%s%% reported at %s%% after %s%%', p, exact, prev)
        prev = p
    ctx.equal(out[-1][1], [name + ' 100%'], 'last message')


# ---------------------------------------------------------------- P04
P04 = Prop('P04', '''monitors of zero to five processes used one to three
times, memory before and after, processes which deny access at some moment,
blocks which raise; percentages of used memory and limits. Non-trivial: two
processes whose memory changes, one of them denying access or a second use''')

rss = st.one_of(st.integers(0, 10 ** 10), st.just('denied'),
                st.integers(0, 10))
pause = st.sampled_from([0, 0, 0, 10, 20])


@st.composite
def monitors(draw):
    pids = draw(st.lists(st.integers(1, 30), max_size=5, unique=True))
    rounds = []
    for _ in range(draw(st.integers(1, 3))):
        some = [[p, draw(rss)] for p in pids]
        rounds.append([some, [[p, draw(rss)] for p in pids], draw(
            st.sampled_from([None, None, 'ValueError', 'Boom', 'KeyError', 'Falsy'])),
            draw(pause), draw(pause)])
    asked = list(pids)
    for _ in range(draw(st.integers(0, 2))):
        asked.insert(draw(st.integers(0, len(asked))),
                     draw(st.sampled_from([None, 0])))
    return {'pids': asked, 'rounds': rounds}


@P04.target(monitors(), 500)
def monitoring(ctx, case):
    """The memory of each process is compared with its own"""
    out = ctx.call('parallel.monitor', **case)
    alive = [p for p in case['pids'] if p]
    own = not case['pids']
    denied = False
    for (start, stop, exc, _, _), o in zip(case['rounds'], out):
        start, stop = dict(start), dict(stop)
        if any('denied' in (start[p], stop[p]) for p in alive):
            denied = True
        alive = [p for p in alive if 'denied' not in (start[p], stop[p])]
        mem = [stop[p] - start[p] for p in alive] if not own else [0]
        ctx.nontrivial(len({m for m in mem if m}) > 1 and (
            denied or len(out) > 1))
        ctx.equal(o['mem'], mem, 'memory')
        ctx.equal([o['same'], o['raised'], o['exc'], o['exc_same']],
                  [True, exc, exc, True], 'exception')
        ctx.equal(o['seen'], [[mem, True, True, exc or 'NoneType']],
                  'attributes when on_exit is called')
        ctx.expect(o['duration'] and o['start'], 'times: %s', o)


@st.composite
def usages(draw):
    limit = draw(st.one_of(st.none(), st.integers(0, 100)))
    near = 80 if limit is None else limit
    used = draw(st.one_of(
        st.integers(0, 100), st.integers(0, 1000).map(lambda i: i / 10),
        st.sampled_from([-1, -.5, -.1, 0, .1, .5, .9, 1]).map(
            lambda d: min(max(near + d, 0), 100))))
    return used, limit


@P04.target(usages(), 300)
def usage(ctx, case):
    """There is a warning if too much memory is used"""
    used, limit = case
    log = ctx.call('parallel.mem_usage', used=used, limit=limit)
    over = used > (80 if limit is None else limit)
    ctx.nontrivial(over)
    ctx.equal(len(log), int(over), 'messages')
    if over:
        ctx.equal(log[0][0], 'WARNING', 'level')
        ctx.expect('%d%%' % math.floor(used) in log[0][1], 'message %s',
                   log[0][1])
