"""Stand-in for openquake.nrmllib.node"""
import sys
import cStringIO
from xml.sax.saxutils import escape, quoteattr
from lxml import etree
from openquake.nrmllib import NAMESPACE, GML_NAMESPACE


def striptag(tag):
    """Remove the namespace from the tag"""
    return tag.rsplit('}', 1)[1] if tag.startswith('{') else tag


def _displayattrs(attrib, expandattrs):
    if not attrib:
        return ''
    if expandattrs:
        alist = ['%s=%r' % item for item in sorted(attrib.items())]
    else:
        alist = list(attrib)
    return '{%s}' % ', '.join(alist)


def _display(node, indent, expandattrs, expandvals, output):
    attrs = _displayattrs(node.attrib, expandattrs)
    val = ' ' + repr(node.text) if expandvals and node.text is not None else ''
    output.write(indent + striptag(node.tag) + attrs + val + '\n')
    for sub_node in node:
        _display(sub_node, indent + '  ', expandattrs, expandvals, output)


def node_display(root, expandattrs=False, expandvals=False, output=sys.stdout):
    _display(root, '', expandattrs, expandvals, output)


class Node(object):
    """
    A tree of nodes with attributes .tag, .attrib, .text, .nodes, .lineno
    """
    __slots__ = ('tag', 'attrib', 'text', 'nodes', 'lineno')

    def __init__(self, fulltag, attrib=None, text=None, nodes=None,
                 lineno=None):
        self.tag = fulltag
        self.attrib = {} if attrib is None else attrib
        self.text = text
        self.nodes = [] if nodes is None else nodes
        self.lineno = lineno
        if self.nodes and self.text is not None:
            raise ValueError(
                'A branch node cannot have a value, got %r' % self.text)

    def __getattr__(self, name):
        if name.startswith('__'):
            raise AttributeError(name)
        for node in self.nodes:
            if striptag(node.tag) == name:
                return node
        raise NameError('No subnode named %r found in %r' %
                        (name, striptag(self.tag)))

    def getnodes(self, name):
        "Return the direct subnodes with name 'name'"
        for node in self.nodes:
            if striptag(node.tag) == name:
                yield node

    def append(self, node):
        "Append a new subnode"
        if not isinstance(node, self.__class__):
            raise TypeError('Expected Node instance, got %r' % node)
        self.nodes.append(node)

    def to_str(self, expandattrs=True, expandvals=True):
        out = cStringIO.StringIO()
        node_display(self, expandattrs, expandvals, out)
        return out.getvalue()

    def __iter__(self):
        return iter(self.nodes)

    def __repr__(self):
        return '<%s %s %s %s>' % (self.__class__.__name__, self.tag,
                                  self.attrib, self.text or '')

    def __getitem__(self, i):
        if isinstance(i, basestring):
            return self.attrib[i]
        return self.nodes[i]

    def get(self, attr, value=None):
        return self.attrib.get(attr, value)

    def __setitem__(self, i, value):
        if isinstance(i, basestring):
            self.attrib[i] = value
        else:
            self.nodes[i] = value

    def __nonzero__(self):
        return bool(self.nodes)

    def __len__(self):
        return len(self.nodes)


def node_from_elem(elem, nodefactory=Node):
    children = list(elem)
    tag = striptag(elem.tag)
    if not children:
        return nodefactory(tag, dict(elem.attrib), elem.text,
                           lineno=elem.sourceline)
    return nodefactory(tag, dict(elem.attrib),
                       nodes=[node_from_elem(ch, nodefactory)
                              for ch in children], lineno=elem.sourceline)


def node_from_xml(xmlfile, nodefactory=Node):
    """Convert a .xml file into a Node object (the root of the document)"""
    return node_from_elem(etree.parse(xmlfile).getroot(), nodefactory)


def node_from_nrml(xmlfile, nodefactory=Node):
    """Convert a NRML file into a Node object whose subnodes are the models"""
    root = node_from_xml(xmlfile, nodefactory)
    assert root.tag == 'nrml', root.tag
    return root


class StreamingXMLWriter(object):
    """A stream-based XML writer, with the formatting of nrmllib.writers"""
    def __init__(self, stream, indent=4, encoding='utf-8'):
        self.stream = stream
        self.indent = indent
        self.encoding = encoding
        self.indentlevel = 0

    def _write(self, text):
        if isinstance(text, unicode):
            text = text.encode(self.encoding)
        spaces = ' ' * (self.indent * self.indentlevel)
        if isinstance(spaces + text, unicode):
            text = text.encode(self.encoding)
        self.stream.write(spaces + text.strip())
        self.stream.write('\n')

    def _attr(self, value):
        if isinstance(value, unicode):
            value = value.encode(self.encoding)
        return quoteattr(str(value))

    def empty_element(self, name, attrs):
        attr = ' '.join('%s=%s' % (n, self._attr(v))
                        for n, v in sorted(attrs.items()))
        self._write('<%s %s/>' % (name, attr) if attr else '<%s/>' % name)

    def start_tag(self, name, attrs=None):
        if not attrs:
            self._write('<%s>' % name)
        else:
            self._write('<' + name)
            for n, v in sorted(attrs.items()):
                self._write('%s=%s' % (n, self._attr(v)))
            self._write('>')
        self.indentlevel += 1

    def end_tag(self, name):
        self.indentlevel -= 1
        self._write('</%s>' % name)

    def serialize(self, node):
        if not node.nodes and not node.text:
            self.empty_element(node.tag, node.attrib)
            return
        self.start_tag(node.tag, node.attrib)
        if node.text:
            text = node.text
            if isinstance(text, unicode):
                text = text.encode(self.encoding)
            self._write(escape(text.strip()))
        for subnode in node:
            self.serialize(subnode)
        self.end_tag(node.tag)


def node_to_xml(node, output=sys.stdout):
    output.write('<?xml version="1.0" encoding="utf-8"?>\n')
    StreamingXMLWriter(output).serialize(node)


def node_to_nrml(node, output=sys.stdout):
    assert isinstance(node, Node), node
    root = Node('nrml', nodes=[node])
    root['xmlns'] = NAMESPACE
    root['xmlns:gml'] = GML_NAMESPACE
    node_to_xml(root, output)


def node_copy(node, nodefactory=Node):
    return nodefactory(node.tag, node.attrib.copy(), node.text,
                       [node_copy(n, nodefactory) for n in node])
