"""mutate.py [FILE...]: development only. Makes small changes of every line of
the code under test, one at a time on scratch copies of /repo, and runs the
checks of that module on each; prints the ones no check notices.

Runs from a copy of /verif (the evidence files are rewritten). Environment:
MUT_JOBS (8), MUT_SAMPLE (keep one of n), MUT_OUT (/tmp/mutants.jsonl)"""
import concurrent.futures
import io
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
import tokenize

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
ALL_C = ['C01', 'C02', 'C03', 'C04', 'C05', 'C06']
PROPS = {
    'valid.py': ['V01', 'V02', 'V03', 'R05'],
    'record.py': ['R01', 'R02', 'R03', 'R04', 'T01', 'T04', 'T02', 'T03', 'A02'],
    'records.py': ['R05', 'T03', 'C01', 'C02', 'C03', 'C05', 'A02', 'C06'],
    'converter.py': ALL_C + ['A02', 'A03'],
    'csvmanager.py': ['A01', 'A02', 'A03', 'A04', 'C06'],
    'general.py': ['G01', 'G02', 'G03', 'G04', 'G05', 'S03', 'P01', 'L03'],
    'logictree.py': ['L01', 'L02', 'L03', 'L04', 'L05', 'L06'],
    'source.py': ['S04', 'S01', 'S02', 'S03'],
    'parallel.py': ['P01', 'P02', 'P03', 'P04'],
    'readini.py': ['I01', 'I02'],
    'riskloaders.py': ['K01', 'K02'],
    'NRMLconvert.py': ['C06'],
}
SWAP = {'==': '!=', '!=': '==', '<': '<=', '<=': '<', '>': '>=', '>=': '>',
        '+': '-', '-': '+', '*': '+', '/': '*', '%': '*', 'and': 'or',
        'or': 'and', 'True': 'False', 'False': 'True', '+=': '-=',
        'sorted': 'list', 'max': 'min', 'min': 'max', 'all': 'any',
        'any': 'all', 'strip': 'lower', 'extend': 'append', 'lower': 'upper',
        'startswith': 'endswith', 'endswith': 'startswith'}


def path(name):
    return 'bin/' + name if name == 'NRMLconvert.py' else \
        'openquake/commonlib/' + name


def logical_lines(toks):
    line = []
    for t in toks:
        if t.type in (tokenize.COMMENT, tokenize.NL, tokenize.INDENT,
                      tokenize.DEDENT, tokenize.ENCODING):
            continue
        if t.type in (tokenize.NEWLINE, tokenize.ENDMARKER):
            if line:
                yield line
            line = []
        else:
            line.append(t)


def mutants(text):
    """(line, what, new text)"""
    toks = list(tokenize.generate_tokens(io.StringIO(text).readline))
    starts = [0]
    for ln in text.splitlines(True):
        starts.append(starts[-1] + len(ln))
    pos = lambda p: starts[p[0] - 1] + p[1]

    def change(a, b, new, what):
        i, j = pos(a), pos(b)
        return (a[0], what, text[:i] + new + text[j:])
    for line in logical_lines(toks):
        first = line[0]
        if first.type == tokenize.STRING and len(line) == 1:
            continue    # docstring
        if first.string in ('import', 'from', 'print', 'global', '@'):
            continue
        a, b = first.start, line[-1].end
        src = text[pos(a):pos(b)]
        kw = first.string
        if kw == 'return' and len(line) > 1:
            yield change(a, b, 'return None', 'return None')
        elif kw in ('raise', 'assert', 'continue', 'break', 'del') or (
                first.type == tokenize.NAME and kw not in (
                    'def', 'class', 'if', 'elif', 'else', 'for', 'while',
                    'try', 'except', 'finally', 'with', 'return', 'yield',
                    'pass')):
            yield change(a, b, 'pass', 'removed: ' + src[:60])
        if kw in ('if', 'elif', 'while') and line[-1].string == ':':
            c = text[pos(line[1].start):pos(line[-1].start)]
            yield change(line[1].start, line[-1].start, 'not (%s)' % c,
                         'negated')
        if kw == 'for' and line[-1].string == ':':
            k = [i for i, t in enumerate(line) if t.string == 'in'][0]
            c = text[pos(line[k + 1].start):pos(line[-1].start)]
            for new in ('list(%s)[1:]', 'list(%s)[:-1]'):
                yield change(line[k + 1].start, line[-1].start, new % c, new)
        for i, t in enumerate(line):
            prev = line[i - 1] if i else None
            if t.string in SWAP and t.type in (tokenize.OP, tokenize.NAME):
                if t.string == '*' and (prev is None or
                                        prev.string in '(,'):
                    continue
                if t.string == '%' and prev.type == tokenize.STRING:
                    continue
                if t.string in ('+', '-') and prev.type == tokenize.OP and \
                        prev.string not in (')', ']'):
                    yield change(t.start, t.end, '', t.string + ' -> nothing')
                    continue
                yield change(t.start, t.end, SWAP[t.string],
                             '%s -> %s' % (t.string, SWAP[t.string]))
            elif t.string == 'not' and i + 1 < len(line) and \
                    line[i + 1].string != 'in':
                if prev is not None and prev.string == 'is':
                    yield change(t.start, t.end, '', 'is not -> is')
                else:
                    yield change(t.start, t.end, '', 'not -> nothing')
            elif t.string == 'is' and line[i + 1].string != 'not':
                yield change(t.start, t.end, 'is not', 'is -> is not')
            elif t.string == 'in' and line[0].string != 'for' and \
                    not any(x.string == 'for' for x in line[:i]):
                if prev.string == 'not':
                    yield change(prev.start, t.end, 'in', 'not in -> in')
                else:
                    yield change(t.start, t.end, 'not in', 'in -> not in')
            elif t.type == tokenize.NUMBER and re.match(r'^\d+$', t.string):
                yield change(t.start, t.end, str(int(t.string) + 1),
                             '%s + 1' % t.string)
                if t.string != '0':
                    yield change(t.start, t.end, '0', t.string + ' -> 0')
            elif t.type == tokenize.STRING and re.match(
                    r'''^r?(['"])[^\s'"\\]*\1$''', t.string):
                q = t.string[-1]
                yield change(t.start, t.end, t.string[:-1] + 'X' + q,
                             t.string + ' + X')
                if t.string[-2] != q:
                    pass
            elif t.string == 'if' and i and any(
                    x.string == 'else' for x in line[i:]):
                j = [k for k in range(i, len(line))
                     if line[k].string == 'else'][0]
                c = text[pos(line[i + 1].start):pos(line[j].start)]
                yield change(line[i + 1].start, line[j].start,
                             'not (%s) ' % c, 'negated')


def try_one(job):
    name, line, what, text, shards, scale, noshrink = job
    w = tempfile.mkdtemp(prefix='mut.')
    try:
        tree = os.path.join(w, 'repo')
        shutil.copytree('/repo', tree, ignore=shutil.ignore_patterns(
            '.git', 'tests', '*.class', 'debian'))
        p = os.path.join(tree, path(name))
        with open(p, encoding='utf8') as f:
            old = f.read()
        with open(p, 'w', encoding='utf8') as f:
            f.write(text)
        assert old != text
        env = dict(os.environ, PBT_TREE=tree, VERIF_SHARDS=str(shards),
                   VERIF_SCALE=str(scale), TMPDIR=w)
        if noshrink:
            env['PBT_NOSHRINK'] = '1'
        for prop in PROPS[name]:
            try:
                r = subprocess.run(
                    ['python3-vt', 'check.py', prop], cwd=HERE, env=env,
                    stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                    timeout=900)
                if r.returncode != 0:
                    return prop, r.returncode
            except subprocess.TimeoutExpired:
                return prop, 'timeout'
        return None, 0
    finally:
        shutil.rmtree(w, ignore_errors=True)


def main(names):
    jobs = []
    keep = int(os.environ.get('MUT_SAMPLE', '1'))
    for name in names or sorted(PROPS):
        with open(os.path.join('/repo', path(name)), encoding='utf8') as f:
            text = f.read()
        seen = set()
        for line, what, new in mutants(text):
            if new != text and new not in seen:
                seen.add(new)
                jobs.append((name, line, what, new))
    jobs = jobs[::keep]
    print(len(jobs), 'mutants', flush=True)
    out = open(os.environ.get('MUT_OUT', '/tmp/mutants.jsonl'), 'a')
    if os.environ.get('MUT_ONLY'):     # rerun of given survivors
        only = set(map(tuple, json.load(open(os.environ['MUT_ONLY']))))
        jobs = [j for j in jobs if (j[0], j[1], j[2]) in only]
        print(len(jobs), 'again', flush=True)
    sh, sc, ns = ((4, 1, 0) if os.environ.get('MUT_FULL') else (1, .4, 1))
    with concurrent.futures.ThreadPoolExecutor(
            int(os.environ.get('MUT_JOBS', '8'))) as pool:
        futs = {pool.submit(try_one, j + (sh, sc, ns)): j for j in jobs}
        for f in concurrent.futures.as_completed(futs):
            j = futs[f]
            prop, rc = f.result()
            out.write(json.dumps([j[0], j[1], j[2], prop, rc]) + '\n')
            out.flush()


if __name__ == '__main__':
    main(sys.argv[1:])
