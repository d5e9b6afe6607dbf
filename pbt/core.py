"""Hypothesis (Python 3) generates and shrinks cases; a Jython worker runs
them against the code in /repo; oracles written here judge the answers."""
import hashlib
import json
import os
import select
import shutil
import subprocess
import sys
import tempfile
import time
import traceback

import hypothesis
from hypothesis import HealthCheck, Phase, settings

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('PBT_TREE') or '/repo'  # another tree: development only
HANG_S = 60


class HarnessError(Exception):
    """Something of the machinery is broken: never a verdict"""


class Violation(Exception):
    """The property does not hold for the case"""


class Hang(Exception):
    pass


class StopNow(BaseException):
    """Ends the search (time cap, end of shrinking)"""


def canon(case):
    return json.dumps(case, sort_keys=True, separators=(',', ':'))


def digest(case):
    return hashlib.sha1(canon(case).encode()).hexdigest()[:16]


# ------------------------------------------------------------ scratch copy

def make_copy(where):
    """A copy of the importable code of /repo's working tree"""
    n = 0
    root = os.path.join(REPO, 'openquake')
    for dirpath, dirs, files in os.walk(root):
        dirs[:] = [d for d in dirs if d not in ('tests', '__pycache__')]
        out = os.path.join(where, os.path.relpath(dirpath, REPO))
        os.makedirs(out, exist_ok=True)
        for f in files:
            if not f.endswith(('.pyc', '$py.class', '.pyo')):
                shutil.copy(os.path.join(dirpath, f), os.path.join(out, f))
                n += 1
    if os.path.isdir(os.path.join(REPO, 'bin')):
        shutil.copytree(os.path.join(REPO, 'bin'), os.path.join(where, 'bin'))
    if not n:
        raise HarnessError('nothing to check in %s' % root)
    return where


# ------------------------------------------------------------ the worker

class Worker:
    def __init__(self, copy, scratch):
        self.copy = copy
        self.scratch = scratch
        self.proc = None
        self.buf = b''
        self.calls = 0

    def start(self):
        self.dir = tempfile.mkdtemp(prefix='w.', dir=self.scratch)
        env = {'PATH': os.environ.get('PATH', '/usr/local/bin:/usr/bin:/bin'),
               'HOME': self.dir,
               'JAVA_TOOL_OPTIONS': '-Xmx1200m -XX:+UseSerialGC '
               '-XX:TieredStopAtLevel=1 -Djava.io.tmpdir=' + self.dir,
               'LC_ALL': 'C.UTF-8', 'TMPDIR': self.dir,
               'JYTHONPATH': ':'.join(['/opt/jylib', self.copy,
                                       os.path.join(HERE, 'standins')])}
        for k in ('JAVA_HOME', 'JYTHON_HOME'):
            if k in os.environ:
                env[k] = os.environ[k]
        self.err = open(os.path.join(self.dir, 'stderr'), 'wb')
        self.proc = subprocess.Popen(
            ['jython', '-B', '-Dpython.cachedir.skip=true',
             os.environ.get('PBT_WORKER') or
             os.path.join(HERE, 'jy', 'worker.py'), self.dir],
            stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=self.err,
            env=env, cwd=self.dir, start_new_session=True)
        self.buf = b''

    def stop(self):
        if self.proc is not None:
            try:
                os.killpg(self.proc.pid, 9)
            except OSError:
                pass
            self.proc.wait()
            for f in (self.proc.stdin, self.proc.stdout):
                try:
                    f.close()
                except OSError:
                    pass
            self.err.close()
            self.proc = None
            shutil.rmtree(self.dir, ignore_errors=True)

    def request(self, op, args):
        if self.proc is None:
            self.start()
        self.calls += 1
        data = (json.dumps({'op': op, 'a': args}) + '\n').encode()
        try:
            self.proc.stdin.write(data)
            self.proc.stdin.flush()
        except OSError:
            raise HarnessError('worker died: %s' % self.stderr())
        fd = self.proc.stdout.fileno()
        end = time.monotonic() + HANG_S
        while b'\n' not in self.buf:
            left = end - time.monotonic()
            if left <= 0:
                self.stop()
                raise Hang('no answer within %d s from %s' % (HANG_S, op))
            if select.select([fd], [], [], left)[0]:
                chunk = os.read(fd, 1 << 20)
                if not chunk:
                    msg = self.stderr()
                    self.stop()
                    raise HarnessError('worker died: %s' % msg)
                self.buf += chunk
        line, self.buf = self.buf.split(b'\n', 1)
        try:
            return json.loads(line)
        except ValueError:
            raise HarnessError('unreadable answer %r' % line[:300])

    def stderr(self):
        try:
            with open(os.path.join(self.dir, 'stderr'), 'rb') as f:
                return f.read()[-2000:].decode('utf8', 'replace')
        except OSError:
            return ''


# ------------------------------------------------------------ targets

class Target:
    def __init__(self, name, strategy, check, quick, thorough, doc=''):
        self.name, self.strategy, self.check = name, strategy, check
        self.quick, self.thorough, self.doc = quick, thorough, doc


class Prop:
    def __init__(self, id, rule, assumptions=()):
        self.id, self.rule, self.assumptions = id, rule, list(assumptions)
        self.targets = []

    def target(self, strategy, quick, thorough=None, name=None):
        """decorator for check(ctx, case)"""
        def deco(check):
            self.targets.append(Target(
                name or check.__name__, strategy, check, quick,
                thorough or quick * 25, check.__doc__ or ''))
            return check
        return deco


# errors of a check, or of its part in the worker, which mean that the code
# under test answered with something of another kind than what is specified
MISREAD = (ValueError, KeyError, TypeError, IndexError, AttributeError,
           ArithmeticError, AssertionError)
MISREAD_THERE = ('ValueError', 'KeyError', 'TypeError', 'IndexError',
                 'AttributeError', 'ZeroDivisionError', 'AssertionError')


class Ctx:
    """What a check of one case sees"""
    def __init__(self, worker):
        self.worker = worker
        self.answered = False
        self.labels = []
        self.nt = False
        self.trace = None

    def call(self, op, **args):
        ans = self.worker.request(op, args)
        self.answered = True
        if 'r' in ans:
            return ans['r']
        if ans.get('lib'):
            raise Violation('unexpected %s from the code under test: %s' % (
                ans['x'], ans['tb'][-1500:]))
        if ans['x'].split('.')[-1] in MISREAD_THERE and (
                "'module' object" not in ans['tb'] and
                "has no attribute '_" not in ans['tb']):
            raise Violation('the answer of the code under test cannot be '
                            'interpreted: %s: %s' % (
                                ans['x'], ans['tb'][-1500:]))
        raise HarnessError('%s: %s\n%s' % (op, ans['x'], ans['tb']))

    def label(self, *names):
        self.labels.extend(names)

    def nontrivial(self, cond=True):
        if cond:
            self.nt = True

    def expect(self, cond, msg, *args):
        if not cond:
            raise Violation(msg % args if args else msg)

    def equal(self, got, want, what=''):
        if not same(got, want):
            raise Violation('%s: got %s, expected %s' % (
                what, short(got), short(want)))


def same(a, b):
    """Equality of JSON values that tells 1 from True and 1 from 1.0"""
    if isinstance(a, tuple):
        a = list(a)
    if isinstance(b, tuple):
        b = list(b)
    if type(a) is not type(b):
        return False
    if isinstance(a, list):
        return len(a) == len(b) and all(map(same, a, b))
    if isinstance(a, dict):
        return a.keys() == b.keys() and all(same(a[k], b[k]) for k in a)
    return a == b


def short(x, n=700):
    s = x if isinstance(x, str) else json.dumps(x, default=repr)
    return s if len(s) <= n else s[:n] + '...'


def close(a, b, rel=1e-9, abs_=1e-12):
    return abs(a - b) <= max(abs_, rel * max(abs(a), abs(b)))


def same_close(a, b, rel=1e-9, abs_=1e-12):
    if isinstance(a, bool) or isinstance(b, bool):
        return a is b
    if isinstance(a, (int, float)) and isinstance(b, (int, float)):
        return a == b or close(a, b, rel, abs_)
    if isinstance(a, (list, tuple)) and isinstance(b, (list, tuple)):
        return len(a) == len(b) and all(
            same_close(x, y, rel, abs_) for x, y in zip(a, b))
    if isinstance(a, dict) and isinstance(b, dict):
        return a.keys() == b.keys() and all(
            same_close(a[k], b[k], rel, abs_) for k in a)
    return type(a) is type(b) and a == b


# ------------------------------------------------------------ running

def run_case(prop, target, case, worker, known):
    """Returns (ctx, message of the violation or None)"""
    for attempt in (1, 2):
        ctx = Ctx(worker)
        try:
            target.check(ctx, case)
            return ctx, None
        except Violation as exc:
            return ctx, str(exc)
        except MISREAD:
            if not ctx.answered:
                raise
            return ctx, ('the answer of the code under test cannot be '
                         'interpreted: %s' % traceback.format_exc()[-1500:])
        except Hang as exc:
            if attempt == 2:
                return ctx, 'HANG ' + str(exc)


FAST = bool(os.environ.get('PBT_NOSHRINK'))     # for tools/mutate.py


class Shard:
    """One process's share of a check"""
    def __init__(self, prop, tier, seed, index, count, copy, scratch, cap,
                 scale):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.index, self.count = index, count
        self.worker = Worker(copy, scratch)
        self.deadline = time.monotonic() + cap
        self.scale = scale
        self.result = {'targets': {}, 'violation': None, 'known': {},
                       'capped': False, 'worker_calls': 0}
        self.history = []      # cases since the worker started

    def run(self):
        try:
            for target in self.prop.targets:
                self.run_target(target)
                if self.result['violation'] or self.result['capped']:
                    break
        finally:
            self.result['worker_calls'] = self.worker.calls
            self.worker.stop()
        return self.result

    def run_target(self, target):
        total = target.quick if self.tier == 'quick' else target.thorough
        n = max(1, int(total * self.scale) // self.count)
        stats = self.result['targets'][target.name] = {
            'evaluations': 0, 'nontrivial': 0, 'hashes': set(),
            'labels': {}, 'samples': []}
        best = [None, None, None]   # size, case, message
        shrink_end = [None]
        broken = [None]
        prop, worker = self.prop, self.worker
        known = load_known(prop.id)

        def body(case):
            now = time.monotonic()
            if shrink_end[0] is not None:
                if now > shrink_end[0]:
                    raise StopNow
            elif now > self.deadline:
                self.result['capped'] = True
                raise StopNow
            self.history.append([target.name, case])
            try:
                ctx, msg = run_case(prop, target, case, worker, known)
            except Exception:
                broken[0] = 'target %s, case %s\n%s' % (
                    target.name, short(canon(case), 1500),
                    traceback.format_exc()[-3000:])
                raise StopNow
            if msg is not None and matches_known(known, target.name, case):
                self.result['known'][matches_known(
                    known, target.name, case)] = msg[:300]
                return
            if shrink_end[0] is None:
                stats['evaluations'] += 1
                for lab in ctx.labels:
                    stats['labels'][lab] = stats['labels'].get(lab, 0) + 1
                if ctx.nt:
                    stats['nontrivial'] += 1
                    stats['hashes'].add(digest([target.name, case]))
                    if len(stats['samples']) < 2 or (
                            stats['nontrivial'] % 97 == 0 and
                            len(stats['samples']) < 4):
                        stats['samples'].append(case)
            if msg is not None:
                size = (len(canon(case)), canon(case))
                if best[0] is None or size < best[0]:
                    best[:] = [size, case, msg]
                if msg.startswith('HANG'):
                    raise StopNow
                if shrink_end[0] is None:
                    shrink_end[0] = now + 45
                raise Violation(msg)

        seed = int(hashlib.sha1(('%s/%s/%s/%d' % (
            self.seed, prop.id, target.name, self.index)).encode())
            .hexdigest()[:12], 16)
        test = hypothesis.seed(seed)(settings(
            max_examples=n, database=None, deadline=None,
            report_multiple_bugs=False, print_blob=False,
            phases=[Phase.generate] + [Phase.shrink] * (not FAST),
            suppress_health_check=[HealthCheck.too_slow,
                                   HealthCheck.data_too_large,
                                   HealthCheck.large_base_example],
        )(hypothesis.given(target.strategy)(lambda case: body(case))))
        try:
            test()
        except StopNow:
            pass
        except Violation:
            pass
        except BaseException:
            if best[1] is None:
                raise
        if broken[0] is not None:
            raise HarnessError(broken[0])
        if best[1] is not None:
            self.confirm(target, best[1], best[2])

    def confirm(self, target, case, msg):
        """Only a failure that happens again in a fresh worker counts"""
        replay = {'property': self.prop.id, 'target': target.name,
                  'seed': self.seed, 'case': case, 'message': msg}
        history = list(self.history)
        if not msg.startswith('HANG') and not FAST:
            for _ in range(3):
                self.worker.stop()
                _, again = run_case(self.prop, target, case, self.worker, [])
                if again is not None:
                    break
            if again is None:
                # perhaps it needs what earlier cases left behind
                self.worker.stop()
                by_name = {t.name: t for t in self.prop.targets}
                for i, (name, c) in enumerate(history):
                    _, again = run_case(self.prop, by_name[name], c,
                                        self.worker, [])
                    if again is not None:
                        replay.update(history=history[:i + 1], message=again)
                        break
                else:
                    raise HarnessError(
                        'a failure did not happen again: %s: %s' % (
                            msg, short(case)))
            else:
                replay['message'] = again
        self.result['violation'] = replay


# ------------------------------------------------------------ known findings

def load_known(pid):
    path = os.path.join(HERE, 'known_findings.jsonl')
    out = []
    if os.path.exists(path):
        with open(path) as f:
            for line in f:
                line = line.strip()
                if line:
                    d = json.loads(line)
                    if d.get('property') == pid and d.get('status') == 'known':
                        out.append(d)
    return out


def matches_known(known, target, case):
    for d in known:
        if d['target'] == target and canon(d['case']) == canon(case):
            return d['id']
    return None


# ------------------------------------------------------------ orchestration

def shard_main(argv):
    """check.py --shard JSON"""
    spec = json.loads(argv[0])
    prop = load_prop(spec['prop'])
    out = spec['out']
    try:
        shard = Shard(prop, spec['tier'], spec['seed'], spec['index'],
                      spec['count'], spec['copy'], spec['scratch'],
                      spec['cap'], spec['scale'])
        res = shard.run()
        for st in res['targets'].values():
            st['hashes'] = sorted(st['hashes'])
    except BaseException:
        res = {'error': traceback.format_exc()[-6000:]}
    with open(out, 'w') as f:
        json.dump(res, f)
    return 0


_REG = {}


def load_prop(pid):
    if not _REG:
        import importlib
        import pkgutil
        from pbt import props
        for m in pkgutil.iter_modules(props.__path__):
            mod = importlib.import_module('pbt.props.' + m.name)
            for obj in list(vars(mod).values()):
                if isinstance(obj, Prop):
                    _REG[obj.id] = obj
    if pid == '*':
        return _REG
    return _REG[pid]


def replay(prop, path):
    with open(path) as f:
        rep = json.load(f)
    scratch = tempfile.mkdtemp(prefix='oqpbt.')
    by_name = {t.name: t for t in prop.targets}
    worker = None
    try:
        worker = Worker(make_copy(os.path.join(scratch, 'copy')), scratch)
        for name, case in rep.get('history') or [[rep['target'],
                                                  rep['case']]]:
            _, msg = run_case(prop, by_name[name], case, worker, [])
            if msg:
                print(msg)
                print('VIOLATION property=%s replay=%s' % (prop.id, path))
                return 1
        print('held')
        return 0
    finally:
        if worker:
            worker.stop()
        shutil.rmtree(scratch, ignore_errors=True)


def main(argv):
    if argv and argv[0] == '--shard':
        return shard_main(argv[1:])
    if argv and argv[0] == '--selftest':
        return selftest()
    pid = argv[0]
    prop = load_prop(pid)
    if '--replay' in argv:
        return replay(prop, argv[argv.index('--replay') + 1])
    tier = os.environ.get('VERIF_TIER') or 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED') or '1')
    scale = float(os.environ.get('VERIF_SCALE') or '1')
    nsh = int(os.environ.get('VERIF_SHARDS') or (
        4 if tier == 'quick' else 7))
    cap = 400 if tier == 'quick' else float(
        os.environ.get('VERIF_CAP') or 800)
    t0 = time.time()
    scratch = tempfile.mkdtemp(prefix='oqpbt.')
    try:
        copy = make_copy(os.path.join(scratch, 'copy'))
        procs = []
        for i in range(nsh):
            spec = dict(prop=pid, tier=tier, seed=seed, index=i, count=nsh,
                        copy=copy, scratch=scratch, cap=cap, scale=scale,
                        out=os.path.join(scratch, 'out%d.json' % i))
            procs.append((spec, subprocess.Popen(
                [sys.executable, os.path.join(HERE, 'check.py'), '--shard',
                 json.dumps(spec)], cwd=HERE)))
        results = []
        for spec, p in procs:
            p.wait()
            try:
                with open(spec['out']) as f:
                    results.append(json.load(f))
            except (OSError, ValueError):
                results.append({'error': 'shard %d ended with %s' % (
                    spec['index'], p.returncode)})
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
    return conclude(prop, tier, seed, results, time.time() - t0)


def conclude(prop, tier, seed, results, wall):
    errors = [r['error'] for r in results if 'error' in r]
    good = [r for r in results if 'error' not in r]
    violations = [r['violation'] for r in good if r['violation']]
    violations.sort(key=lambda v: len(canon(v['case'])))
    known = {}
    for r in good:
        known.update(r['known'])
    # a listed finding is replayed on every run
    coverage = {'evaluations': 0, 'distinct_nontrivial': 0,
                'rule': prop.rule, 'samples': [], 'targets': {},
                'shards': len(results),
                'time_cap_hit': any(r['capped'] for r in good),
                'worker_requests': sum(r['worker_calls'] for r in good)}
    for t in prop.targets:
        sts = [r['targets'][t.name] for r in good if t.name in r['targets']]
        hashes = set()
        labels = {}
        samples = []
        for st in sts:
            hashes.update(st['hashes'])
            for k, v in st['labels'].items():
                labels[k] = labels.get(k, 0) + v
            samples.extend(st['samples'])
        ev = sum(st['evaluations'] for st in sts)
        coverage['targets'][t.name] = {
            'evaluations': ev, 'distinct_nontrivial': len(hashes),
            'what': ' '.join(t.doc.split()), 'labels': labels}
        coverage['evaluations'] += ev
        coverage['distinct_nontrivial'] += len(hashes)
        samples.sort(key=lambda s: abs(len(canon(s)) - 300))
        for s in samples[:2]:
            text = canon(s)
            coverage['samples'].append(
                {'target': t.name,
                 'case': s if len(text) < 3000 else text[:3000] + '...'})
    evidence = {'property': prop.id, 'tier': tier, 'seed': seed,
                'level': 'exploration', 'coverage': coverage,
                'assumptions': BASE_ASSUMPTIONS + prop.assumptions,
                'wall_s': round(wall, 2), 'violations': len(violations)}
    if known:
        coverage['known_findings'] = sorted(known)
    os.makedirs(os.path.join(HERE, 'evidence'), exist_ok=True)
    with open(os.path.join(HERE, 'evidence', prop.id + '.json'), 'w') as f:
        json.dump(evidence, f, indent=1, sort_keys=True)
        f.write('\n')
    print('%s %s seed=%d: %d cases, %d distinct non-trivial, %.1f s%s' % (
        prop.id, tier, seed, coverage['evaluations'],
        coverage['distinct_nontrivial'], wall,
        ' (time cap hit)' if coverage['time_cap_hit'] else ''))
    for kid in sorted(known):
        print('KNOWN-FINDING: property=%s %s: %s' % (
            prop.id, kid, known[kid].splitlines()[0]))
    if violations:
        v = violations[0]
        d = os.path.join(HERE, 'replays')
        os.makedirs(d, exist_ok=True)
        path = os.path.join(d, '%s-%s.json' % (
            prop.id, digest([v['target'], v['case'], v['message']])))
        with open(path, 'w') as f:
            json.dump(v, f, indent=1, sort_keys=True)
        print('target %s' % v['target'])
        print('case %s' % short(canon(v['case']), 2000))
        print(v['message'])
        print('VIOLATION property=%s replay=%s' % (prop.id, path))
        return 1
    if errors:
        print('%d shards failed; the first:\nERROR %s' % (
            len(errors), errors[0]), file=sys.stderr)
        return 2
    if coverage['evaluations'] == 0:
        print('ERROR nothing was evaluated', file=sys.stderr)
        return 2
    return 0


def selftest():
    """The worker starts, and the code of /repo can be imported in it"""
    scratch = tempfile.mkdtemp(prefix='oqpbt.')
    worker = None
    try:
        worker = Worker(make_copy(os.path.join(scratch, 'copy')), scratch)
        print(worker.request('valid.numbers', {'texts': ['1']}))
        print('%d checks' % len(load_prop('*')))
        return 0
    finally:
        if worker:
            worker.stop()
        shutil.rmtree(scratch, ignore_errors=True)


BASE_ASSUMPTIONS = [
    'the code runs under Jython 2.7 (the only Python 2 here)',
    'third-party packages are the stand-ins of /verif/standins, validated '
    'by running the whole test suite of the repository against them',
]
