"""Record types are built from a specification: {name, bases?, fields:
[[name, cast]], pkey: [...], uniques: [[attr, [names]]], fkeys: [[attr, target
type, target constraint, [names]]], constraints: [[kind, fields]]}"""
from codec import obs, enc
from openquake.commonlib import record, records, valid, converter


def unexplained(text):
    if len(text) % 2:
        raise ValueError
    return text


def explained_twice(text):
    if '.' in text or '-' in text:
        raise ValueError('not plain', text)
    return text

CASTS = {
    'unexplained': unexplained, 'explained_twice': explained_twice,
    'int': int, 'float': float, 'str': str,
    'positiveint': valid.positiveint, 'positivefloat': valid.positivefloat,
    'longitude': valid.longitude, 'latitude': valid.latitude,
    'probability': valid.probability, 'name': valid.name,
    'namelist': valid.namelist, 'not_empty': valid.not_empty,
    'boolean': valid.boolean, 'category': valid.category,
    'IMTstr': valid.IMTstr,
    'none_or_float': valid.NoneOr(valid.positivefloat),
    'none_or_bool': valid.NoneOr(valid.boolean),
    'choice': valid.Choice('aggregated', 'per_asset'),
}


def constraint(spec):
    kind, fields = spec
    if kind == 'same_empty':     # all the fields are empty or none is
        return lambda rec: len(set(rec[f] == '' for f in fields)) == 1
    if kind == 'distinct':       # the texts of the fields are different
        return lambda rec: len(set(rec[f] for f in fields)) == len(fields)
    raise AssertionError(kind)


def build(spec, types):
    dic = {'record': record, 'CASTS': CASTS, 'types': types}
    lines = ['class %s(%s):' % (spec['name'], ', '.join(
        'types[%r]' % b for b in spec.get('bases', ())) or 'record.Record')]
    before = spec.get('constraints_first', True)
    cons = []
    if spec.get('pkey') is not None:
        cons.append('    pkey = record.Unique(%s)' %
                    ', '.join(map(repr, spec['pkey'])))
    for attr, names in spec.get('uniques', []):
        cons.append('    %s = record.Unique(%s)' % (
            attr, ', '.join(map(repr, names))))
    for attr, tname, tattr, names in spec.get('fkeys', []):
        cons.append('    %s = record.ForeignKey(types[%r].%s, %s)' % (
            attr, tname, tattr, ', '.join(map(repr, names))))
    named = spec.get('named')
    flds = ['    %s = record.Field(CASTS[%r]%s)' % (
        n, c, ', %r' % named if named and i % 2 else '')
        for i, (n, c) in enumerate(spec['fields'])]
    flds += ['    %s = %s' % (n, e) for n, e in spec.get('extra', [])]
    lines += (cons + flds) if before else (flds + cons)
    lines.append('    convertername = "X"')
    exec '\n'.join(lines) in dic
    cls = dic[spec['name']]
    for c in spec.get('constraints', []):
        cls.add_check(constraint(c))
    types[spec['name']] = cls
    return cls


def build_all(specs):
    types = {}
    for s in specs:
        build(s, types)
    return types


def real_or_built(specs, name):
    if specs is None:
        return getattr(records, name)
    return build_all(specs)[name]


def row_of(rec):
    return [rec[i] for i in range(len(rec))]


def invalid_obs(exc, cls):
    return {'errors': [[f, m] for f, m in exc.errorlist],
            'record': row_of(exc.record), 'cls': exc.record.__class__.__name__,
            'rowno': exc.rowno, 'str': str(exc),
            'is_invalid': isinstance(exc, record.InvalidRecord)}


def same_value(a, b):
    """equality of cast values that holds for NaN and tells types apart"""
    if type(a) is not type(b):
        return False
    if isinstance(a, (list, tuple)):
        return len(a) == len(b) and all(map(same_value, a, b))
    return a == b or (a != a and b != b)


def casting(specs, name, rows):
    """Everything a record says about its validity, next to what the cast of
    each field says by itself"""
    cls = real_or_built(specs, name)
    out = []
    for k, row in enumerate(rows):
        rec = cls(*row)
        direct = []
        values = []
        for field, text in zip(cls.fields, row):
            try:
                values.append(field.cast(text))
                direct.append([True, ''])
            except ValueError as e:
                values.append(None)
                direct.append([False, str(e)])
        tup, exc = rec.cast()
        one = {'direct': direct, 'row': row_of(rec)}
        if exc is None:
            one['cast'] = {'same': same_value(tuple(tup), tuple(values)),
                           'fields': list(tup._fields),
                           'by_name': [same_value(getattr(tup, f), v)
                                       for f, v in zip(tup._fields, values)],
                           'tuple': isinstance(tup, tuple)}
        else:
            one['cast'] = None if tup is None else 'both'
            one['invalid'] = invalid_obs(exc, cls)
        try:
            t = rec.to_tuple()
            one['to_tuple'] = ['ok', same_value(tuple(t), tuple(values))]
        except record.InvalidRecord as e:
            one['to_tuple'] = ['invalid', [[f, m] for f, m in e.errorlist]]
        one['is_valid'] = rec.is_valid()
        one['by_index'] = [rec.is_valid(i) for i in range(len(row))]
        one['by_name'] = [rec.is_valid(f.name) for f in cls.fields]
        attrs = []
        for field, v in zip(cls.fields, values):
            try:
                attrs.append(['ok', same_value(getattr(rec, field.name), v),
                              same_value(getattr(cls, field.name)(rec), v)])
            except ValueError as e:
                attrs.append(['bad', str(e)])
        one['attrs'] = attrs
        one['after'] = row_of(rec)
        # the record as changed towards the next row, and asked again
        for j, text in enumerate(rows[(k + 1) % len(rows)]):
            try:
                rec[j] = text
            except ValueError:
                pass
        tup, exc = rec.cast()
        one['changed'] = {
            'row': row_of(rec), 'is_valid': rec.is_valid(),
            'by_index': [rec.is_valid(j) for j in range(len(rec))],
            'errors': None if exc is None else [f for f, _ in exc.errorlist],
            'again': rec.is_valid(),
            'same': exc is not None or same_value(tuple(tup), tuple(
                f.cast(t) for f, t in zip(cls.fields, row_of(rec))))}
        out.append(one)
    return out


def family(specs, checks, rows):
    """Types which inherit from each other, with checks added in the given
    order; then validity of rows of each of them"""
    types = {}
    built = set()
    out = []
    for step in checks:
        if step[0] == 'declare':
            build([s for s in specs if s['name'] == step[1]][0], types)
            built.add(step[1])
        elif step[0] == 'check':
            types[step[1]].add_check(constraint(step[2]))
        else:
            rec = types[step[1]](*rows[step[2]])
            out.append([rec.is_valid(), [rec.is_valid(i)
                                         for i in range(len(rec))],
                        record.Table(types[step[1]], [rec]).is_valid()])
    return out


def find_invalid(specs, name, rows, take, table, shared):
    cls = real_or_built(specs, name)
    recs = [cls(*r) for r in rows]
    if shared:
        recs = [recs[rows.index(r)] for r in rows]
    if table:
        recs = record.Table(cls, recs)
    asked = []

    def reading():
        for rec in recs:
            asked.append(1)
            yield rec
    it = record.find_invalid(recs if table else reading())
    found = []
    read = []    # how many records were read before each answer
    while take is None or len(found) < take:
        try:
            found.append(it.next())
        except StopIteration:
            break
        read.append(len(asked))
    direct = []
    for row in rows:
        errs = []
        for field, text in zip(cls.fields, row):
            try:
                field.cast(text)
            except ValueError as e:
                errs.append([field.name, str(e)])
        direct.append(errs)
    return {'found': [invalid_obs(e, cls) for e in found], 'direct': direct,
            'fieldnames': cls.fieldnames, 'name': cls.__name__,
            'read': None if table else read, 'valid': recs.is_valid() if table else None,
            'each': [r.is_valid() for r in recs]}


def declare(specs):
    """Build the types one after the other; what each declaration gives"""
    types = {}
    out = []
    for s in specs:
        def one():
            cls = build(s, types)
            n = len(cls.fieldnames)
            full = cls(*['v%d' % i for i in range(n)])
            empty = cls()
            bykw = cls(**dict((f, 'k' + f) for f in cls.fieldnames))
            part = cls(*['p'] * (n // 2))
            return {
                'fieldnames': cls.fieldnames,
                'len': len(cls), 'reclen': len(full),
                'fields': [f.name for f in cls.fields],
                'index': [cls.get_field_index(f) for f in cls.fieldnames],
                'full': row_of(full), 'empty': row_of(empty),
                'bykw': row_of(bykw), 'part': row_of(part),
                'byname': [full[f] for f in cls.fieldnames],
                'too_many': obs(lambda: row_of(cls(*['x'] * (n + 1)))),
                'unknown': obs(lambda: row_of(cls(nosuch='x'))),
                'pkey': list(full.pkey),
                'uniques': sorted([u.name, list(u.names)] for u in
                                  cls.get_descriptors(record.Unique)),
                'unique_values': [[a, list(getattr(full, a))]
                                  for a, _ in s.get('uniques', [])],
                'unique_owner': all(
                    u.recordtype is cls
                    for u in cls.get_descriptors(record.Unique)),
                'fkeys': sorted(
                    [k.name, list(k.names), k.unique.recordtype.__name__,
                     k.unique.name]
                    for k in cls.get_descriptors(record.ForeignKey)),
                'fk_values': [[a, list(getattr(full, a))]
                              for a, _, _, _ in s.get('fkeys', [])],
                # private: may go
                'ordinal': getattr(cls, '_ordinal', None),
                'repr': repr(cls), 'name': cls.__name__,
            }
        out.append(obs(one))
    return out


def alien(row):
    """a record of another type"""
    name = 'Alien%d' % len(row)
    specs = [{'name': name, 'pkey': ['zz0'], 'fields': [
        ['zz%d' % i, 'str'] for i in range(len(row))]}]
    return real_or_built(specs, name)(*row)


def record_ops(specs, name, row, others, ops):
    cls = real_or_built(specs, name)
    rec = cls(*row)
    out = []
    for op in ops:
        kind = op[0]

        def run():
            if kind == 'get':
                return rec[op[1]]
            if kind == 'set':
                rec[op[1]] = op[2]
            elif kind == 'len':
                return len(rec)
            elif kind == 'iter':
                return list(rec)
            elif kind == 'str':
                return str(rec)
            elif kind == 'in':
                return op[1] in rec
            elif kind == 'index':
                return rec.index(op[1])
            elif kind == 'count':
                return rec.count(op[1])
            elif kind == 'reversed':
                return list(reversed(rec))
            elif kind == 'eq':
                o = others[op[1]]
                o = cls(*o[1]) if o[0] == 'rec' else alien(
                    o[1]) if o[0] == 'alien' else (
                    tuple(o[1]) if o[0] == 'tuple' else o[1])
                return [rec == o, rec != o]
            elif kind == 'valid':
                return rec.is_valid(op[1])
            else:
                raise AssertionError(kind)
        res = obs(run)
        out.append([res, row_of(rec)])
    return out


def casts_ok(specs, name, texts):
    """which field accepts which texts"""
    out = []
    for f in real_or_built(specs, name).fields:
        row = []
        for t in texts:
            try:
                f.cast(t)
                row.append(True)
            except ValueError:
                row.append(False)
        out.append(row)
    return out


# ------------------------------------------------------------------ tables

def table_state(t, probes):
    look = []
    for p in probes:
        try:
            look.append(row_of(t.getrecord(*p)))
        except KeyError:
            look.append(None)
    return {'rows': [row_of(r) for r in t], 'len': len(t), 'look': look}


def table_history(specs, name, initial, ops, probes):
    cls = real_or_built(specs, name)
    first = obs(lambda: record.Table(cls, [cls(*r) for r in initial]))
    if 'ok' not in first:
        return {'init': first}
    t = first['ok']
    out = []
    for op in ops:
        kind = op[0]

        def run():
            if kind == 'insert':
                t.insert(op[1], cls(*op[2]))
            elif kind == 'append':
                t.append(cls(*op[1]))
            elif kind == 'extend':
                t.extend([cls(*r) for r in op[1]])
            elif kind == 'set':
                t[op[1]] = cls(*op[2])
            elif kind == 'del':
                del t[op[1]]
            elif kind == 'pop':
                return row_of(t.pop(op[1]))
            elif kind == 'remove':
                t.remove(cls(*op[1]))
            elif kind == 'get':
                return row_of(t[op[1]])
            elif kind == 'index':
                return t.index(cls(*op[1]))
            elif kind == 'in':
                return cls(*op[1]) in t
            elif kind == 'reverse':
                t.reverse()
            elif kind == 'eq':
                return [t == op[1], t != op[1]]
            elif kind == 'str':
                return str(t)
            elif kind == 'valid':
                return t.is_valid()
            else:
                raise AssertionError(kind)
        out.append([obs(run), table_state(t, probes)])
    return {'init': 'ok', 'ops': out}


def table_reading(specs, name, rows, ops):
    cls = real_or_built(specs, name)
    recs = [cls(*r) for r in rows]
    t = record.Table(cls, recs)

    def other(kind, rows):
        if kind == 'rows':
            return rows
        if kind == 'tuples':
            return tuple(map(tuple, rows))
        out = [cls(*r) for r in rows]
        return record.Table(cls, out) if kind == 'table' else out
    out = []
    for op in ops:
        kind = op[0]

        def run():
            if kind == 'get':
                return row_of(t[op[1]])
            elif kind == 'slice':
                return [row_of(r) for r in t[slice(*op[1])]]
            elif kind == 'in':
                return [cls(*op[1]) in t, op[1] in t]
            elif kind == 'index':
                return [t.index(cls(*op[1])), t.index(op[1])]
            elif kind == 'count':
                return [t.count(cls(*op[1])), t.count(op[1])]
            elif kind == 'eq':
                o = other(op[1], op[2])
                return [t == o, t != o, o == t, o != t]
            elif kind == 'str':
                return str(t)
            elif kind == 'len':
                return [len(t), bool(t)]
            elif kind == 'iter':
                return [[row_of(r) for r in t], all(
                    a is b for a, b in zip(t, recs))]
            elif kind == 'reversed':
                return [row_of(r) for r in reversed(t)]
            elif kind == 'valid':
                return t.is_valid()
            elif kind == 'nodes':
                return [[list(k), n.tag == rec.to_node().tag,
                         n.attrib == rec.to_node().attrib]
                        for (k, n), rec in zip(
                            record.nodedict(t).items(), recs)]
            else:
                raise AssertionError(kind)
        out.append([obs(run), [row_of(r) for r in t]])
    return {'ops': out, 'each': [r.is_valid() for r in recs]}


# ------------------------------------------------------------- table sets

def tableset_history(specs, order, ops, probes):
    types = build_all(specs)

    class Conv(object):
        @classmethod
        def recordtypes(cls):
            return [types[n] for n in order]

    ts = record.TableSet(Conv)
    out = []
    for op in ops:
        kind = op[0]

        def run():
            if kind == 'insert':
                ts.insert(types[op[1]](*op[2]))
            elif kind == 'insert_all':
                ts.insert_all(types[n](*r) for n, r in op[1])
            elif kind == 'check':
                ts.check_fk(types[op[1]](*op[2]))
            elif kind == 'del':
                del getattr(ts, 'table' + op[1])[op[2]]
            elif kind == 'set':
                getattr(ts, 'table' + op[1])[op[2]] = types[op[1]](*op[3])
            elif kind == 'iter':
                return [[t.recordtype.__name__, len(t)] for t in ts]
            elif kind == 'slice':
                sub = ts[op[1]:op[2]]
                return [len(sub), [t.recordtype.__name__ for t in sub.tables],
                        [[t.recordtype.__name__, len(t)] for t in sub]]
            else:
                raise AssertionError(kind)
        res = obs(run)
        state = [[t.recordtype.__name__, t.ordinal,
                  table_state(t, probes[t.recordtype.__name__])]
                 for t in ts.tables]
        out.append([res, state, len(ts)])
    return out


def schema(name, rows):
    """what a record type of the package says about rows of texts"""
    cls = getattr(records, name)
    out = []
    for row in rows:
        rec = cls(*row)
        tup, exc = rec.cast()
        out.append({
            'cells': [rec.is_valid(i) for i in range(len(cls))],
            'valid': rec.is_valid(),
            'bad': None if exc is None else [f for f, _ in exc.errorlist],
            'values': None if tup is None else [enc_value(v) for v in tup]})
    return {'columns': list(cls.fieldnames), 'rows': out,
            'format': cls.convertername}


def enc_value(v):
    if isinstance(v, tuple):      # the parts of an intensity measure type
        return ['tuple'] + list(map(enc_value, v))
    if isinstance(v, bool) or v is None:
        return v
    if isinstance(v, (int, long)):
        return ['int', str(v)]
    if isinstance(v, float):
        return ['float', repr(v)]
    return v


def format_tables(conv, ops):
    """insertions in the tables of a format; contents after each"""
    ts = record.TableSet(getattr(converter, conv))
    out = [[t.recordtype.__name__ for t in ts.tables]]
    for name, row in ops:
        res = obs(lambda: ts.insert(getattr(records, name)(*row)))
        out.append([res, [[row_of(r) for r in t] for t in ts.tables]])
    return out
