import itertools
import os
import csv
import sys
import zipfile
import StringIO
import codec
from codec import obs
from h_conv import fix, unnode, mknode
from openquake.nrmllib.node import node_from_nrml
from openquake.commonlib import csvmanager, record, records, converter
from openquake.commonlib.csvmanager import (
    MemArchive, DirArchive, ZipArchive, CSVManager, mkarchive, NotInArchive)


def finish(arc):
    """a ZipFile is complete when it is closed; ZipArchive leaves that to the
    garbage collector"""
    if isinstance(arc, ZipArchive):
        arc.zip.close()


def contents(arc):
    """the files of an archive, read without going through the archive"""
    if isinstance(arc, DirArchive):
        return dict((f, codec.read(os.path.join(arc.name, f)))
                    for f in os.listdir(arc.name))
    if isinstance(arc, MemArchive):
        return dict((n, f.fileobj.getvalue()) for n, f in arc.dic.items())
    z = zipfile.ZipFile(arc.name)
    try:
        return dict((n, z.read(n)) for n in z.namelist())
    finally:
        z.close()


def parse_csv(text):
    return list(csv.reader(StringIO.StringIO(text)))


def to_csv(rows):
    out = StringIO.StringIO()
    csv.writer(out).writerows(rows)
    return out.getvalue()


def new(kind, name, mode='w'):
    if kind == 'mem':
        return MemArchive([])
    if kind == 'zip':
        return mkarchive(codec.path(name + '.zip'), mode)
    return mkarchive(codec.path(name), mode)


def filled(kind, name, files):
    """an archive with the given [name, content] files"""
    if kind == 'mem':
        return MemArchive([(n, c) for n, c in files])
    if kind == 'zip':
        p = codec.path(name + '.zip')
        z = zipfile.ZipFile(p, 'w')
        for n, c in files:
            z.writestr(n, c)
        z.close()
        return ZipArchive(p, 'a')
    p = codec.path(name, 'x')
    for n, c in files:
        codec.write(os.path.join(name, n), c)
    return DirArchive(os.path.dirname(p), 'r')


# ------------------------------------------------------------- C06

def nrml_roundtrip(nrml, prefix, kind, out_kind, name='arc'):
    """file -> archive of csv files -> file"""
    fname = codec.write(prefix + '.xml', nrml)
    arc = new(kind, name)
    res = {}

    def run():
        man = CSVManager(arc, 'other').convert_from_nrml(fname)
        res['prefix'] = man.prefix
        res['invalid'] = [str(e) for e in man.find_invalid()]
        if out_kind == 'same':
            out = None
        else:
            out = new(out_kind, 'out-' + name)
        names = man.convert_to_nrml(out)
        res['names'] = [os.path.basename(n) for n in names]
        finish(arc)
        if out is not None:
            finish(out)
        got = contents(arc)
        res['csv'] = dict((n, parse_csv(c)) for n, c in got.items()
                          if n.endswith('.csv'))
        if out is not None:
            res['extra'] = [n for n in got if not n.endswith('.csv')]
            got = contents(out)
        res['xml'] = [n for n in sorted(got) if n.endswith('.xml')]
        text = got[prefix + '.xml']
        [node] = node_from_nrml(StringIO.StringIO(text))
        res['node'] = unnode(node)
    res['res'] = obs(run)
    return res


SCRIPT = os.path.join(os.path.dirname(os.path.dirname(os.path.dirname(
    os.path.abspath(csvmanager.__file__)))), 'bin', 'NRMLconvert.py')


def run_script(*args):
    """run as a program"""
    made = []
    old = csvmanager.mkarchive, sys.argv

    def mk(*a):
        made.append(old[0](*a))
        return made[-1]
    csvmanager.mkarchive = mk
    sys.argv = [SCRIPT] + list(args)
    codec.OUT.take()
    try:
        try:
            execfile(SCRIPT, {'__name__': '__main__', '__file__': SCRIPT})
        except SystemExit:
            return {'exit': str(sys.exc_info()[1]), 'out': codec.OUT.take()}
        return {'exit': None, 'out': codec.OUT.take()}
    finally:
        csvmanager.mkarchive, sys.argv = old
        for arc in made:
            finish(arc)


def command(nrml, prefix, kind, out_kind, limit, damage, name='arc'):
    """bin/NRMLconvert.py from file to archive, from archive to file"""
    fname = codec.write(prefix + '.xml', nrml)
    arcname = name
    where = codec.path(name + ('.zip' if kind == 'zip' else ''))
    res = {}

    def run():
        before = sorted(os.listdir(os.path.dirname(fname)))
        res['bare'] = run_script(fname)['exit']
        res['made'] = sorted(os.listdir(os.path.dirname(fname))) != before
        res['first'] = run_script(fname, where)
        arc = ZipArchive(where, 'r') if kind == 'zip' else DirArchive(where)
        got = contents(arc)
        finish(arc)
        res['csv'] = dict((n, parse_csv(c)) for n, c in got.items())
        if damage is not None:
            table, row, col, text = damage
            name = '%s__%s.csv' % (prefix, table)
            rows = res['csv'][name]
            rows[row + 1][col] = text
            got[name] = to_csv(rows)
            if kind == 'zip':
                z = zipfile.ZipFile(where, 'w')
                for n, c in got.items():
                    z.writestr(n, c)
                z.close()
            else:
                codec.write(os.path.join(arcname, name), got[name])
        args = [where]
        out = where
        if out_kind != 'same':
            out = codec.path('out-' + arcname + ('.zip' if out_kind == 'zip' else ''))
            if out_kind == 'dir':
                os.mkdir(out)
            args.append(out)
        elif limit is not None:
            args.append('')
        if limit is not None:
            args.append(limit)
        res['second'] = run_script(*args)
        if damage is not None:
            left = []
            for d, _, names in os.walk(codec.WORK):
                for n in names:
                    if n.endswith('.zip'):
                        z = zipfile.ZipFile(os.path.join(d, n))
                        left.extend(z.namelist())
                        z.close()
                    elif os.path.join(d, n) != fname:
                        left.append(n)
            res['xml'] = [n for n in left if n.endswith('.xml')]
        if damage is None:
            arc = ZipArchive(out, 'r') if out.endswith('.zip') else \
                DirArchive(out)
            text = contents(arc)[prefix + '.xml']
            finish(arc)
            [node] = node_from_nrml(StringIO.StringIO(text))
            res['node'] = unnode(node)
    res['res'] = obs(run)
    return res


# ------------------------------------------------------------- A01

def history(kind, ops):
    state = {'arc': new(kind, 'arc')}
    handles = {}
    out = []

    def run(op):
        arc = state['arc']
        what = op[0]
        if what == 'write':
            _, name, mode, chunks = op
            with arc.open(name, mode) as f:
                for c in chunks:
                    f.write(c)
            return None
        if what == 'open':
            f = arc.open(op[1], op[2])
            handles[op[1]] = f
            for c in op[3]:
                f.write(c)
            return None
        if what == 'more':
            handles[op[1]].write(op[2])
            handles[op[1]].flush()
            return None
        if what == 'closeone':
            handles.pop(op[1]).close()
            return None
        if what == 'closeall':
            arc.close()
            handles.clear()
            return None
        if what == 'read':
            f = arc.open(op[1])
            data = f.read()
            f.close()
            return data
        if what == 'lines':
            with arc.open(op[1], 'r') as f:
                return [line for line in f]
        if what == 'peek':        # left open
            f = arc.open(op[1], 'r')
            return f.readline()
        if what == 'bits':
            with arc.open(op[1]) as f:
                got = [f.readline() if n == 'line' else f.read(n)
                       for n in op[2]]
                got.append(f.read())
            try:
                [g.decode('utf8') for g in got]
            except UnicodeDecodeError:  # a letter was cut in two
                got = [''.join(got)]
            return got
        if what == 'two':         # two readers of the same file
            f, g = arc.open(op[1]), arc.open(op[1])
            a = f.readline()
            b = g.read()
            return [a, b, f.read()]
        if what == 'in':
            return op[1] in arc
        if what == 'names':
            return sorted(arc.extract_filenames(*op[1:]))
        if what == 'reopen':
            with arc:
                pass
            handles.clear()
            finish(arc)
            if kind == 'mem':
                state['arc'] = MemArchive(
                    [(n, f.fileobj.getvalue()) for n, f in arc.dic.items()])
            else:
                state['arc'] = mkarchive(arc.name, op[1])
            return type(state['arc']).__name__
        raise AssertionError(what)
    for op in ops:
        out.append(obs(run, op))
    state['arc'].close()
    finish(state['arc'])
    return [out, obs(contents, state['arc'])]


# ------------------------------------------------------------- A02, A03

def find_invalid(kind, files, limits, convert):
    arc = filled(kind, 'arc', files)

    def run():
        man = CSVManager(arc)
        found = []
        for lim in limits:
            errs = man.find_invalid(*lim)
            found.append([[e.fname, e.rowno, [f for f, _ in e.errorlist],
                           str(e)] for e in errs])
        res = {'found': found}
        if convert:
            res['names'] = man.convert_to_nrml()
            finish(arc)
            got = contents(arc)
            res['nodes'] = dict(
                (n[:-4], unnode(node_from_nrml(StringIO.StringIO(t))[0]))
                for n, t in got.items() if n.endswith('.xml'))
            res['csv'] = sorted([n, t] for n, t in got.items()
                                if not n.endswith('.xml'))
        return res
    return obs(run)


def groups(kind, files, prefix, how):
    arc = filled(kind, 'arc', files)
    out = {}

    def run():
        if how == 'nrml':
            man = CSVManager(arc, prefix)
            out['names'] = [os.path.basename(n)
                            for n in man.convert_to_nrml()]
            finish(arc)
            got = contents(arc)
            out['nodes'] = dict(
                (n[:-4], unnode(node_from_nrml(StringIO.StringIO(t))[0]))
                for n, t in got.items() if n.endswith('.xml'))
        elif how == 'node':
            node = CSVManager(arc, prefix).convert_to_node()
            fix(node)
            out['node'] = unnode(node)
        elif how == 'tables':
            tset = CSVManager(arc, prefix).get_tableset()
            out['tables'] = dict((t.recordtype.__name__, [list(r) for r in t])
                                 for t in tset.tables)
            out['conv'] = tset.name
    out['res'] = obs(run)
    arc.close()
    finish(arc)
    out['after'] = contents(arc)
    return out


def readtables(kind, files, prefix, has_header):
    """each table on its own"""
    arc = filled(kind, 'arc', files)
    man = CSVManager(arc, prefix, has_header)
    out = []
    for name, _ in files:
        rt = getattr(records, name[len(prefix) + 2:-4])
        out.append(obs(lambda: [list(r) for r in man.readtable(rt)]))
    man.archive.close()
    return out


def writerows(kind, prefix, has_header, groups):
    """each group in a block of its own"""
    arc = new(kind, 'arc')

    def run():
        man = CSVManager(arc, prefix, has_header)
        for recs in groups:
            with man as m:
                for name, row in recs:
                    m.write(getattr(records, name)(*row))
        finish(arc)
        return dict((n, parse_csv(c)) for n, c in contents(arc).items())
    return obs(run)


# ------------------------------------------------------------- A04

def spoil_rows(recs):
    for rec in recs:
        for i in range(len(rec)):
            for text in ('spoiled', '77'):
                try:
                    rec[i] = text
                except ValueError:  # only valid texts can be assigned
                    continue
                break


def spoil_node(node):
    for n in node.nodes:
        spoil_node(n)
    node.text = 'spoiled'
    node.attrib.clear()
    if node.nodes:
        node.nodes.pop()


def reading_again(kind, files, prefix, has_header, steps, together,
                  spoil=False):
    """a manager asked for the same things several times; with spoil, what
    it gives is changed by the caller"""
    arc = filled(kind, 'arc', files)
    man = CSVManager(arc, prefix, has_header)

    def tables(tset):
        return dict((t.recordtype.__name__, [list(r) for r in t])
                    for t in tset.tables)

    def run(step):
        what = step[0]
        if what == 'tables':
            tset = man.get_tableset()
            res = tables(tset)
            if spoil:
                for t in tset.tables:
                    spoil_rows(t)
            return res
        if what == 'node':
            node = man.convert_to_node()
            fix(node)
            res = unnode(node)
            if spoil:
                spoil_node(node)
            return res
        if what == 'nrml':
            out = MemArchive([])
            man.convert_to_nrml(out)
            [text] = contents(out).values()
            return unnode(node_from_nrml(StringIO.StringIO(text))[0])
        if what == 'invalid':
            errs = man.find_invalid()
            res = len(errs)
            if spoil:
                del errs[:]
            return res
        rt = getattr(records, step[1])
        if what in ('begin', 'first'):
            it = man.read(rt)
            if what == 'begin':
                going_on.append(it)
            got = list(itertools.islice(it, step[2]))
        if what == 'table':
            got = man.readtable(rt)
        if what == 'read':
            got = list(man.read(rt))
        if what != 'create':
            res = [list(r) for r in got]
            if spoil:
                spoil_rows(got)
            return res
        if what == 'create':
            [text] = [c for n, c in files if n.endswith(
                '__' + step[1] + '.csv')]
            if has_header:
                text = text.split('\r\n', 1)[1]
            t = csvmanager.create_table(rt, text)
            return [t.recordtype.__name__, [list(r) for r in t]]
        raise AssertionError(what)
    out = []
    going_on = []
    if together:
        with man:
            for step in steps:
                out.append(obs(run, step))
    else:
        for step in steps:
            out.append(obs(run, step))
    arc.close()
    finish(arc)
    return [out, contents(arc)]
