# -*- coding: utf-8 -*-
"""Stand-in for lxml.etree built on the SAX parser of the Java runtime."""
import StringIO as _S
import re as _re
import os as _os
from java.lang import String as _String
from java.io import ByteArrayInputStream as _BAIS
from javax.xml.parsers import SAXParserFactory as _SPF
from org.xml.sax import InputSource as _InputSource, SAXException as _SAXExc
from org.xml.sax.helpers import DefaultHandler as _DH


class LxmlError(Exception):
    pass


class Error(LxmlError):
    pass


class LxmlSyntaxError(LxmlError, SyntaxError):
    pass


class ParseError(LxmlSyntaxError):
    pass


class XMLSyntaxError(ParseError):
    pass


class XPathEvalError(LxmlError):
    pass


class DocumentInvalid(LxmlError):
    pass


def _mk(x):
    """lxml on Python 2 returns plain strings for ASCII text"""
    if x is None:
        return None
    if isinstance(x, str):
        return x
    try:
        return x.encode('ascii')
    except UnicodeError:
        return unicode(x)


class _Element(object):
    def __init__(self, tag, attrib=None, nsmap=None, sourceline=None):
        self.tag = tag
        self.attrib = dict(attrib or {})
        self.text = None
        self.tail = None
        self.sourceline = sourceline
        self.nsmap = nsmap or {}
        self._children = []
        self._parent = None

    # ---- attributes
    def get(self, key, default=None):
        return self.attrib.get(key, default)

    def set(self, key, value):
        self.attrib[key] = value

    def keys(self):
        return self.attrib.keys()

    def values(self):
        return self.attrib.values()

    def items(self):
        return self.attrib.items()

    # ---- tree
    def __iter__(self):
        return iter(list(self._children))

    def __len__(self):
        return len(self._children)

    def __nonzero__(self):
        return bool(self._children)

    def __getitem__(self, i):
        return self._children[i]

    def getchildren(self):
        return list(self._children)

    def getparent(self):
        return self._parent

    def getroottree(self):
        e = self
        while e._parent is not None:
            e = e._parent
        return _ElementTree(e)

    def _pos(self):
        for i, c in enumerate(self._parent._children):
            if c is self:
                return i

    def getprevious(self):
        if self._parent is None:
            return None
        i = self._pos()
        return self._parent._children[i - 1] if i > 0 else None

    def getnext(self):
        if self._parent is None:
            return None
        i = self._pos() + 1
        ch = self._parent._children
        return ch[i] if i < len(ch) else None

    def append(self, child):
        if child._parent is not None:
            child._parent.remove(child)
        child._parent = self
        self._children.append(child)

    def insert(self, i, child):
        if child._parent is not None:
            child._parent.remove(child)
        child._parent = self
        self._children.insert(i, child)

    def extend(self, children):
        for c in children:
            self.append(c)

    def remove(self, child):
        for i, c in enumerate(self._children):
            if c is child:
                del self._children[i]
                child._parent = None
                return
        raise ValueError('Element is not a child of this node.')

    def clear(self):
        for c in self._children:
            c._parent = None
        self._children = []
        self.attrib.clear()
        self.text = None
        self.tail = None

    def index(self, child):
        for i, c in enumerate(self._children):
            if c is child:
                return i
        raise ValueError('Element is not a child of this node.')

    # ---- navigation
    def iter(self, tag=None, *tags):
        tags = (tag,) + tags if tag is not None else tags
        if not tags or _match_tags(self.tag, tags):
            yield self
        for c in list(self._children):
            for x in c.iter(*tags):
                yield x

    def getiterator(self, tag=None):
        return self.iter(*([tag] if tag else []))

    def iterchildren(self, tag=None, reversed=False):
        ch = list(self._children)
        if reversed:
            ch = ch[::-1]
        for c in ch:
            if tag is None or _match_tags(c.tag, (tag,)):
                yield c

    def iterdescendants(self, tag=None):
        for c in list(self._children):
            for x in c.iter(*([tag] if tag else [])):
                yield x

    def iterancestors(self, tag=None):
        p = self._parent
        while p is not None:
            if tag is None or _match_tags(p.tag, (tag,)):
                yield p
            p = p._parent

    def itersiblings(self, tag=None, preceding=False):
        e = self.getprevious() if preceding else self.getnext()
        while e is not None:
            if tag is None or _match_tags(e.tag, (tag,)):
                yield e
            e = e.getprevious() if preceding else e.getnext()

    def itertext(self):
        if self.text:
            yield self.text
        for c in self._children:
            for t in c.itertext():
                yield t
            if c.tail:
                yield c.tail

    # ---- searching
    def findall(self, path, namespaces=None):
        return _find(self, path, namespaces)

    def iterfind(self, path, namespaces=None):
        return iter(_find(self, path, namespaces))

    def find(self, path, namespaces=None):
        found = _find(self, path, namespaces)
        return found[0] if found else None

    def findtext(self, path, default=None, namespaces=None):
        e = self.find(path, namespaces)
        return default if e is None else (e.text or '')

    def xpath(self, path, namespaces=None, **kw):
        return _xpath(self, path, namespaces)

    def __repr__(self):
        return '<Element %s at 0x%x>' % (self.tag, id(self))


class _ElementTree(object):
    def __init__(self, root):
        self._root = root

    def getroot(self):
        return self._root

    def iter(self, *tags):
        return self._root.iter(*tags)

    getiterator = iter

    def _rel(self, path):
        return '.' + path if path.startswith('/') else path

    def find(self, path, namespaces=None):
        return self._root.find(self._rel(path), namespaces)

    def findall(self, path, namespaces=None):
        return self._root.findall(self._rel(path), namespaces)

    def iterfind(self, path, namespaces=None):
        return self._root.iterfind(self._rel(path), namespaces)

    def findtext(self, path, default=None, namespaces=None):
        return self._root.findtext(self._rel(path), default, namespaces)

    def xpath(self, path, namespaces=None, **kw):
        return _xpath(self._root, path, namespaces)


ElementBase = _Element


def _match_tags(tag, pats):
    for p in pats:
        if p == tag or p in ('*', '{*}*'):
            return True
        if p.endswith('}*') and tag.startswith(p[:-1]):
            return True
        if p.startswith('{*}') and tag.split('}')[-1] == p[3:]:
            return True
    return False


_STEP = _re.compile(r'((?:\{[^}]*\})?[^/\[\]@]+|@[^/\[\]]+)((?:\[[^\]]*\])*)$')


def _steps(path):
    """Split a path on '/' outside of {namespace} and [predicate]"""
    out, cur, depth = [], '', 0
    for ch in path:
        if ch in '{[':
            depth += 1
        elif ch in '}]':
            depth -= 1
        if ch == '/' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    out.append(cur)
    return out


def _resolve(name, namespaces):
    if name.startswith('{') or name in ('*', '.', '..', 'text()', 'node()'):
        return name
    if ':' in name:
        prefix, local = name.split(':', 1)
        try:
            return '{%s}%s' % ((namespaces or {})[prefix], local)
        except KeyError:
            raise XPathEvalError('Undefined namespace prefix')
    return name


def _pred(elems, preds, namespaces):
    for p in _re.findall(r'\[([^\]]*)\]', preds):
        p = p.strip()
        m = _re.match(r'@([\w:.-]+)\s*=\s*(?:"([^"]*)"|\'([^\']*)\')$', p)
        if m:
            val = m.group(2) if m.group(2) is not None else m.group(3)
            elems = [e for e in elems if e.get(m.group(1)) == val]
            continue
        m = _re.match(r'@([\w:.-]+)$', p)
        if m:
            elems = [e for e in elems if e.get(m.group(1)) is not None]
            continue
        if p.isdigit():
            i = int(p) - 1
            elems = elems[i:i + 1]
            continue
        if p == 'last()':
            elems = elems[-1:]
            continue
        m = _re.match(r'([\w:{}/.*-]+)$', p)
        if m:
            elems = [e for e in elems if _find(e, p, namespaces)]
            continue
        raise XPathEvalError('stand-in: unsupported predicate [%s]' % p)
    return elems


def _walk(ctx, path, namespaces):
    steps = _steps(path)
    deep = False
    for step in steps:
        if step == '':
            deep = True
            continue
        m = _STEP.match(step)
        if m is None:
            raise XPathEvalError('stand-in: unsupported step %r' % step)
        name, preds = m.groups()
        if name.startswith('child::'):
            name = name[7:]
        if name.startswith('descendant::'):
            name, deep = name[12:], True
        name = _resolve(name.strip(), namespaces)
        new = []
        if name == '.':
            if deep:
                for e in ctx:
                    new.extend(e.iter())
            else:
                new = list(ctx)
        elif name == '..':
            for e in ctx:
                if e.getparent() is not None and not any(
                        x is e.getparent() for x in new):
                    new.append(e.getparent())
        elif name == 'text()':
            for e in ctx:
                for x in (e.iter() if deep else [e]):
                    if x.text:
                        new.append(x.text)
                    for c in x:
                        if c.tail:
                            new.append(c.tail)
        elif name.startswith('@'):
            for e in ctx:
                for x in (e.iter() if deep else [e]):
                    if name == '@*':
                        new.extend(x.values())
                    elif x.get(name[1:]) is not None:
                        new.append(x.get(name[1:]))
        else:
            seen = set()
            for e in ctx:
                for x in (list(e.iter()) if deep else [e]):
                    found = [c for c in x if _match_tags(c.tag, (name,))]
                    for c in _pred(found, preds, namespaces):
                        if id(c) not in seen:
                            seen.add(id(c))
                            new.append(c)
        deep = False
        ctx = new
    return ctx


def _find(elem, path, namespaces):
    if path.startswith('/'):
        raise SyntaxError('cannot use absolute path on element')
    return _walk([elem], path, namespaces)


def _xpath(elem, path, namespaces):
    path = path.strip()
    if '|' in path:
        out = []
        for p in path.split('|'):
            out.extend(_xpath(elem, p, namespaces))
        return out
    if path.startswith('/'):
        root = elem
        while root._parent is not None:
            root = root._parent
        doc = _Element('#document')
        doc._children = [root]       # do not change the parent of the root
        return _walk([doc], path[1:], namespaces)
    return _walk([elem], path, namespaces)


# ------------------------------------------------------------------ schema

class XMLSchema(object):
    """
    Checks the document against the few structural rules of the NRML 0.4
    schema that matter for the code under test (which elements may appear
    at the top level and below the logic tree elements).
    """
    def __init__(self, etree=None, file=None):
        if file is None and etree is None:
            raise TypeError('No schema given')
        self.error_log = []

    def _violation(self, root):
        v = self._first_violation(root)
        return v and v[2]

    @staticmethod
    def _first_violation(root):
        from openquake.nrmllib import _schema
        return _schema.first_violation(root)

    def validate(self, tree):
        root = tree.getroot() if isinstance(tree, _ElementTree) else tree
        return self._violation(root) is None

    __call__ = validate

    def assertValid(self, tree):
        root = tree.getroot() if isinstance(tree, _ElementTree) else tree
        msg = self._violation(root)
        if msg:
            raise DocumentInvalid(msg)


class XMLParser(object):
    def __init__(self, schema=None, **kw):
        self.schema = schema


# ----------------------------------------------------------------- parsing

class _Handler(_DH):
    def __init__(self):
        self.root = None
        self.stack = []
        self.last = None
        self.events = []
        self.loc = None
        self.buf = []
        self.ns = [{}]
        self.pending = {}

    def setDocumentLocator(self, loc):
        self.loc = loc

    def startPrefixMapping(self, prefix, uri):
        self.pending[_mk(prefix) or None] = _mk(uri)

    def _flush(self):
        if self.buf:
            text = _mk(u''.join(self.buf))
            self.buf = []
            if self.last is not None:
                self.last.tail = (self.last.tail or '') + text
            elif self.stack:
                e = self.stack[-1]
                e.text = (e.text or '') + text

    def startElement(self, uri, local, qname, attrs):
        self._flush()
        tag = '{%s}%s' % (_mk(uri), _mk(local)) if uri else _mk(local)
        attrib = {}
        order = []
        for i in range(attrs.getLength()):
            u, l = attrs.getURI(i), attrs.getLocalName(i)
            k = '{%s}%s' % (_mk(u), _mk(l)) if u else _mk(l)
            attrib[k] = _mk(attrs.getValue(i))
        nsmap = dict(self.ns[-1])
        nsmap.update(self.pending)
        self.pending = {}
        self.ns.append(nsmap)
        e = _Element(tag, attrib, nsmap,
                     self.loc.getLineNumber() if self.loc else None)
        if self.stack:
            self.stack[-1].append(e)
        else:
            self.root = e
        self.stack.append(e)
        self.last = None
        self.events.append(('start', e))

    def endElement(self, uri, local, qname):
        self._flush()
        e = self.stack.pop()
        self.ns.pop()
        self.last = e
        self.events.append(('end', e))

    def characters(self, ch, start, length):
        self.buf.append(unicode(_String(ch, start, length).toString()))

    def error(self, exc):
        raise exc

    def fatalError(self, exc):
        raise exc

    def warning(self, exc):
        pass

    def resolveEntity(self, publicId, systemId):
        return _InputSource(_BAIS(''))


_factory = None


def _sax(data):
    """Parse a bytestring, return (handler, error message or None)"""
    global _factory
    if isinstance(data, unicode):
        data = data.encode('utf-8')
    if _factory is None:
        _factory = _SPF.newInstance()
        _factory.setNamespaceAware(True)
    reader = _factory.newSAXParser().getXMLReader()
    h = _Handler()
    reader.setContentHandler(h)
    reader.setErrorHandler(h)
    reader.setEntityResolver(h)
    try:
        # libxml2 is picky about what comes before the first element; so is
        # the Java parser, except for leading white space which both accept
        # only when there is no XML declaration
        reader.parse(_InputSource(_BAIS(data)))
    except _SAXExc as exc:
        line = getattr(exc, 'lineNumber', 0)
        return h, '%s, line %s, column %s' % (
            exc.getMessage(), line, getattr(exc, 'columnNumber', 0))
    except Exception as exc:            # java.io.* (encoding problems)
        return h, str(exc)
    except BaseException as exc:
        return h, str(exc)
    return h, None


def _read(source):
    if hasattr(source, 'read'):
        return source.read()
    if not isinstance(source, basestring):
        raise TypeError("cannot parse from '%s'" % type(source).__name__)
    if not _os.path.exists(source):
        raise IOError("Error reading file '%s': failed to load external "
                      "entity \"%s\"" % (source, source))
    f = open(source, 'rb')
    try:
        return f.read()
    finally:
        f.close()


def _parse(data, schema):
    h, err = _sax(data)
    if err:
        raise XMLSyntaxError(err)
    if schema is not None:
        msg = schema._violation(h.root)
        if msg:
            raise XMLSyntaxError(msg)
    return h.root


def fromstring(text, parser=None, base_url=None):
    if isinstance(text, unicode) and text.lstrip().startswith(u'<?xml') and \
            'encoding' in text.split('?>')[0]:
        raise ValueError('Unicode strings with encoding declaration are not '
                         'supported. Please use bytes input or XML fragments '
                         'without declaration.')
    return _parse(text, parser.schema if parser else None)


XML = fromstring


def parse(source, parser=None, base_url=None):
    return _ElementTree(_parse(_read(source), parser.schema if parser else None))


def ElementTree(element=None, file=None):
    return parse(file) if file is not None else _ElementTree(element)


def Element(tag, attrib=None, nsmap=None, **extra):
    a = dict(attrib or {})
    a.update(extra)
    return _Element(tag, a, nsmap)


def SubElement(parent, tag, attrib=None, nsmap=None, **extra):
    e = Element(tag, attrib, nsmap, **extra)
    parent.append(e)
    return e


class iterparse(object):
    def __init__(self, source, events=('end',), tag=None, schema=None, **kw):
        self._events = set(events)
        self._tags = None if tag is None else (
            (tag,) if isinstance(tag, basestring) else tuple(tag))
        self._schema = schema
        self._it = self._gen(source)
        self.root = None

    def _gen(self, source):
        h, err = _sax(_read(source))
        self.root = h.root
        bad = None
        if self._schema is not None and h.root is not None:
            bad = self._schema._first_violation(h.root)
        # the events seen before the point of the error, then the error
        for ev, e in h.events:
            if bad and bad[0] == ev and bad[1] is e:
                raise XMLSyntaxError(bad[2])
            if ev in self._events and (
                    self._tags is None or _match_tags(e.tag, self._tags)):
                yield ev, e
        if err:
            raise XMLSyntaxError(err)

    def __iter__(self):
        return self

    def next(self):
        return self._it.next()


def _esc(s):
    return s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')


def tostring(elem, **kw):
    if isinstance(elem, _ElementTree):
        elem = elem.getroot()
    inv = {}

    def q(tag):
        if tag.startswith('{'):
            uri, local = tag[1:].split('}')
            pre = inv.setdefault(uri, 'ns%d' % len(inv))
            return '%s:%s' % (pre, local)
        return tag

    def ser(e, top):
        body = _esc(e.text or '') + ''.join(
            ser(c, False) + _esc(c.tail or '') for c in e)
        attrs = ''.join(' %s="%s"' % (q(k), _esc(v).replace('"', '&quot;'))
                        for k, v in e.items())
        tag = q(e.tag)
        ns = ''
        if top:
            ns = ''.join(' xmlns:%s="%s"' % (p, u) for u, p in inv.items())
        return '<%s%s%s>%s</%s>' % (tag, ns, attrs, body, tag)
    return ser(elem, True)
