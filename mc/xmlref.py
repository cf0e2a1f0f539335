"""Reference reader and writer of XigtXML, independent of the code under test:
the writer is plain string concatenation, the reader sits directly on expat.
Both work on specs (see mc.dom).  `expected` is the normal form an object must
have after a round trip."""
import xml.parsers.expat

CORE = {'corpus': 'xigt-corpus', 'igt': 'igt', 'tier': 'tier', 'item': 'item',
        'metadata': 'metadata', 'meta': 'meta'}
KINDS = {v: k for k, v in CORE.items()}
TEXT = ('item', 'meta', 'mc')
SUB = {'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'metadata': 'meta',
       'meta': 'mc', 'mc': 'mc'}
XMLNS = 'http://www.w3.org/XML/1998/namespace'
DC = 'http://purl.org/dc/elements/1.1/'
DCKEY = '{%s}' % DC


def blank(s):
    return s is None or not s.strip(' \t\r\n')   # others are text


def expected(s, inherited=None, keep_empty=False):
    """Normal form of spec s after a round trip (prefix maps: in scope)."""
    k = s['k']
    eff = dict(inherited or {})
    eff.update(s.get('nsmap') or {})
    d = {'k': k, 'id': s.get('id'), 'type': s.get('type'),
         'attrs': dict(s.get('attrs') or {}), 'ns': s.get('ns'), 'nsmap': eff}
    if k in TEXT:
        t = s.get('text')
        if not keep_empty:
            if k == 'item':
                t = t or None
            elif blank(t):
                t = None
        d['text'] = t
    if k == 'mc':
        d['name'] = s['name']
    if k in ('corpus', 'igt', 'tier'):
        d['md'] = [expected(m, eff, keep_empty) for m in s.get('md') or []]
    if k in SUB:
        d['kids'] = [expected(c, eff, keep_empty) for c in s.get('kids') or []]
    return d


# ------------------------------------------------------------------- writer

def esc(t, quote=None):
    out = []
    for ch in t:
        if ch == '&':
            out.append('&amp;')
        elif ch == '<':
            out.append('&lt;')
        elif ch == '>':
            out.append('&gt;')
        elif quote and ch == quote:
            out.append('&quot;' if ch == '"' else '&apos;')
        elif ch == '\r' or (quote and ch in '\n\t'):
            out.append('&#%d;' % ord(ch))
        else:
            out.append(ch)
    return ''.join(out)


def cdata(t):
    return '<![CDATA[' + t.replace(']]>', ']]]]><![CDATA[>') + ']]>'


def write(s, style=''):
    """style: set of letters
      i indented    c comments and processing instructions between elements
      q single-quoted attributes, ids last     d CDATA sections
      h every prefix of the document declared again on every element
      x XML declaration and DOCTYPE-free prologue comment
      n character references for every non-space text character
      e explicit end tags for empty elements
      f foreign elements inside igt and tier (to be ignored)
      z carriage-return newlines between elements"""
    out = []
    if 'x' in style:
        out.append('<?xml version="1.0"?>\n<!-- a corpus -->\n')
    _write(s, {}, {}, style, 0, out)
    if 'x' in style:
        out.append('\n<!-- done -->\n')
    return ''.join(out)


def _nl(style, level):
    if 'i' not in style:
        return ''
    nl = '\r\n' if 'z' in style else '\n'
    return nl + '  ' * level


def _name(ns, local, eff):
    if ns is None:
        return local
    best = None
    for pre, uri in eff.items():
        if uri == ns:
            if pre == '':
                return local
            best = best or pre
    return '%s:%s' % (best, local)


def _write(s, eff, declared, style, level, out):
    k = s['k']
    eff = dict(eff)
    eff.update(s.get('nsmap') or {})
    q = "'" if 'q' in style else '"'
    attrs = []
    if DCKEY in ''.join(s.get('attrs') or {}) and DC not in eff.values():
        eff['dc'] = DC
    for pre, uri in eff.items():
        if declared.get(pre) != uri or 'h' in style:
            attrs.append(('xmlns:' + pre if pre else 'xmlns', uri))
    own = []
    if k != 'mc':
        if s.get('id') is not None:
            own.append(('id', s['id']))
        if s.get('type') is not None:
            own.append(('type', s['type']))
    rest = []
    for a, v in (s.get('attrs') or {}).items():
        if a.startswith('{'):
            uri, local = a[1:].split('}', 1)
            pre = 'xml' if uri == XMLNS else \
                [p for p, u in eff.items() if u == uri and p][0]
            a = '%s:%s' % (pre, local)
        rest.append((a, v))
    attrs += rest + own if 'q' in style else own + rest
    tag = _name(s.get('ns'), s['name'] if k == 'mc' else CORE[k], eff)
    out.append('<' + tag)
    for a, v in attrs:
        out.append(' %s=%s%s%s' % (a, q, esc(v, q), q))
    subs = list(s.get('md') or []) + list(s.get('kids') or [])
    t = s.get('text') if k in TEXT else None
    if not t and not subs:
        out.append('></%s>' % tag if 'e' in style else ' />')
        return
    out.append('>')
    if t:
        if 'n' in style:
            out.append(''.join('&#x%X;' % ord(c) for c in t))
        elif 'd' in style:
            out.append(cdata(t[:1]) + esc(t[1:2]) + cdata(t[2:]) if '\r' not in t
                       else esc(t))
        elif 'c' in style and len(t) > 1:
            out.append(esc(t[:1]) + '<!-- c -->' + esc(t[1:]))
        else:
            out.append(esc(t))
    for c in subs:
        if not t or c is not subs[0]:
            out.append(_nl(style, level + 1))
        if 'c' in style:
            out.append('<!-- <igt id="no"/> --><?pi data?>')
        _write(c, eff, eff, style, level + 1, out)
    if 'f' in style and k in ('igt', 'tier'):
        out.append('<foreign id="f"><thing/>text</foreign>')
    if subs:
        out.append(_nl(style, level))
    out.append('</%s>' % tag)


# ------------------------------------------------------------------- reader

class _Elem:
    def __init__(self, name, attrs, nsmap):
        self.name, self.attrs, self.nsmap = name, attrs, nsmap
        self.text, self.kids = [], []


def read(text, ctx=None):
    """Normal form of the document, as `expected` gives it."""
    p = xml.parsers.expat.ParserCreate(None if isinstance(text, bytes) else None,
                                       namespace_separator='\x01')
    p.ordered_attributes = True
    p.buffer_text = True
    stack, root, scope, pend = [], [], [{}], {}

    def startns(pre, uri):
        pend[pre or ''] = uri or ''

    def start(name, attrs):
        m = dict(scope[-1])
        m.update(pend)
        pend.clear()
        scope.append(m)
        e = _Elem(name, [(attrs[i], attrs[i + 1])
                         for i in range(0, len(attrs), 2)], m)
        if stack:
            stack[-1].kids.append(e)
        else:
            root.append(e)
        stack.append(e)

    def end(name):
        stack.pop()
        scope.pop()

    def chars(t):
        if stack and not stack[-1].kids:
            stack[-1].text.append(t)
        elif t.strip():
            raise ValueError('text after a child element: %r' % t)

    p.StartNamespaceDeclHandler = startns
    p.StartElementHandler = start
    p.EndElementHandler = end
    p.CharacterDataHandler = chars
    p.Parse(text, True)
    return _conv(root[0], ctx)


def _split(n):
    if '\x01' in n:
        return tuple(n.split('\x01', 1))
    return None, n


def _conv(e, ctx):
    ns, local = _split(e.name)
    if ctx in ('meta', 'mc'):
        k = 'mc'
    else:
        k = KINDS[local]
    d = {'k': k, 'id': None, 'type': None, 'attrs': {}, 'ns': ns, 'nsmap': e.nsmap}
    for a, v in e.attrs:
        uri, key = _split(a)
        if uri is None and key in ('id', 'type') and k != 'mc':
            d[key] = v
        else:
            d['attrs'][key if uri is None else '{%s}%s' % (uri, key)] = v
    if k in TEXT:
        t = ''.join(e.text)
        if k == 'item':
            d['text'] = t or None
        else:
            d['text'] = None if blank(t) else t
    elif ''.join(e.text).strip():
        raise ValueError('stray text %r in %s' % (e.text, k))
    if k == 'mc':
        d['name'] = local
    if k in ('corpus', 'igt', 'tier'):
        d['md'] = [_conv(c, k) for c in e.kids if _split(c.name)[1] == 'metadata']
        rest = [c for c in e.kids if _split(c.name)[1] != 'metadata']
        if [c for c in e.kids[:len(d['md'])] if _split(c.name)[1] != 'metadata']:
            raise ValueError('metadata does not come first')
    else:
        rest = e.kids
    if k in SUB:
        d['kids'] = [_conv(c, k) for c in rest]
        for c in d['kids']:
            if c['k'] != SUB[k]:
                raise ValueError('%s inside %s' % (c['k'], k))
    elif rest:
        raise ValueError('children inside %s' % k)
    return d


def nsdiff(want, got, allowed=()):
    """Normalise prefix maps: extra bindings listed in `allowed` are dropped from
    got (declarations of well-known namespaces added where needed)."""
    for pre, uri in list(got['nsmap'].items()):
        if pre not in want['nsmap'] and uri in allowed:
            del got['nsmap'][pre]
    for f in ('md', 'kids'):
        for a, b in zip(want.get(f) or [], got.get(f) or []):
            nsdiff(a, b, allowed)
