import os
import codec
from codec import obs
from openquake.nrmllib.node import Node, node_from_nrml
from openquake.commonlib import record, converter


def mknode(spec):
    tag, attrib, text, children = spec
    return Node(tag, dict(attrib), text, [mknode(c) for c in children])


def txt(x):
    if x is None or isinstance(x, basestring):
        return x
    return {'__r': type(x).__name__}


def unnode(node):
    return [node.tag, dict((k, txt(v)) for k, v in node.attrib.items()),
            txt(node.text), [unnode(n) for n in node.nodes]]


def rows(tset):
    return dict((t.recordtype.__name__, [list(r) for r in t])
                for t in tset.tables)


def invalid(tset):
    out = []
    for t in tset.tables:
        for r in t:
            exc = r.cast()[1]
            if exc:
                out.append(str(exc))
            elif not r.is_valid():
                out.append('%s: %s' % (t.recordtype.__name__, list(r)))
    return out


def roundtrip(node, nrml=None):
    """node -> tables -> node -> tables, from a tree or from a file"""
    src = mknode(node)

    def run():
        if nrml is not None:
            conv = converter.Converter.from_nrml(
                codec.write('model.xml', nrml))
        else:
            conv = converter.Converter.from_node(src)
        res = {'conv': type(conv).__name__,
               'names': [t.recordtype.__name__ for t in conv.tableset.tables],
               'tables': rows(conv.tableset),
               'invalid': invalid(conv.tableset)}
        out = conv.to_node()
        out.nodes = list(out.nodes)
        fix(out)
        res['node'] = unnode(out)
        again = converter.Converter.from_node(out)
        res['again'] = rows(again.tableset)
        n2 = conv.to_node()      # a second conversion of the same tables
        fix(n2)
        res['node2'] = unnode(n2)
        return res
    return {'res': obs(run), 'src': unnode(src)}


def fix(node):
    """the assets come as a generator"""
    node.nodes = list(node.nodes)
    for n in node.nodes:
        fix(n)


def from_tables(convname, tables):
    """tables -> node -> tables"""
    from openquake.commonlib import records

    def run():
        tset = record.TableSet(getattr(converter, convname))
        for name, rs in tables:
            tset.insert_all(getattr(records, name)(*r) for r in rs)
        bad = invalid(tset)
        node = tset.to_node()
        fix(node)
        again = converter.Converter.from_node(node)
        return {'tables': rows(tset), 'invalid': bad, 'node': unnode(node),
                'again': rows(again.tableset)}
    return obs(run)


def validity(rows):
    """whether single exposure records, and tables of them, are valid"""
    from openquake.commonlib import records
    out = []
    for r in rows:
        rec = records.Exposure(*r)
        out.append([rec.is_valid(), rec.cast()[1] is None,
                    record.Table(records.Exposure, [rec]).is_valid()])
    return out


def to_tables(node, nrml=None):
    """node or file -> tables"""
    def run():
        if nrml is not None:
            conv = converter.Converter.from_nrml(
                codec.write('model.xml', nrml))
        else:
            conv = converter.Converter.from_node(mknode(node))
        return rows(conv.tableset)
    return obs(run)


def to_model(convname, tables, archive=None):
    """tables -> node or file"""
    from openquake.commonlib import records, csvmanager
    import h_csv

    def run():
        if archive is not None:
            arc = h_csv.filled(archive, 'arc', [
                ['p__%s.csv' % name, h_csv.to_csv(
                    [getattr(records, name).fieldnames] + rs)]
                for name, rs in tables if rs])
            out = csvmanager.CSVManager(arc, 'p').convert_to_nrml(
                csvmanager.MemArchive([]))
            return len(out)
        tset = record.TableSet(getattr(converter, convname))
        for name, rs in tables:
            tset.insert_all(getattr(records, name)(*r) for r in rs)
        node = tset.to_node()
        fix(node)
        return unnode(node)
    return obs(run)
