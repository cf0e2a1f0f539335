"""Plain-data descriptions of Xigt objects ("specs"), construction of real
objects from specs through the public constructors, and snapshots of real
objects back into plain data through their public attributes.

A spec is a dict; absent keys mean "not given".
  k     'corpus' | 'igt' | 'tier' | 'item' | 'metadata' | 'meta' | 'mc'
  id, type, ns, text, name
  attrs {key: value}          (keys '{uri}local' when namespaced)
  nsmap None | {prefix: uri}
  md    [metadata specs]      (corpus, igt, tier)
  kids  [child specs]
"""
import xigt
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild

CHILD = {'corpus': 'igt', 'igt': 'tier', 'tier': 'item', 'metadata': 'meta',
         'meta': 'mc', 'mc': 'mc'}
CLASS = {'corpus': XigtCorpus, 'igt': Igt, 'tier': Tier, 'item': Item,
         'metadata': Metadata, 'meta': Meta, 'mc': MetaChild}
KIDARG = {'corpus': 'igts', 'igt': 'tiers', 'tier': 'items',
          'metadata': 'metas', 'meta': 'children', 'mc': 'children'}
HAS_MD = ('corpus', 'igt', 'tier')
HAS_TEXT = ('item', 'meta', 'mc')


def S(k, id=None, **kw):
    d = {'k': k}
    if id is not None:
        d['id'] = id
    d.update({a: b for a, b in kw.items() if b is not None})
    return d


def corpus(*kids, **kw):
    return S('corpus', kids=list(kids), **kw)


def igt(id=None, *kids, **kw):
    return S('igt', id, kids=list(kids), **kw)


def tier(id=None, *kids, **kw):
    return S('tier', id, kids=list(kids), **kw)


def item(id=None, text=None, **kw):
    return S('item', id, text=text, **kw)


def metadata(*kids, **kw):
    return S('metadata', kids=list(kids), **kw)


def meta(*kids, **kw):
    return S('meta', kids=list(kids), **kw)


def mc(name, *kids, **kw):
    return S('mc', name=name, kids=list(kids), **kw)


def build(s, **extra):
    """Real object for a spec, through the public constructor."""
    k = s['k']
    kw = {}
    if k != 'mc':
        if 'id' in s:
            kw['id'] = s['id']
        if 'type' in s:
            kw['type'] = s['type']
    if s.get('attrs'):
        kw['attributes'] = dict(s['attrs'])
    if 'ns' in s:
        kw['namespace'] = s['ns']
    if s.get('nsmap') is not None:
        kw['nsmap'] = dict(s['nsmap'])
    if 'text' in s and k in HAS_TEXT:
        kw['text'] = s['text']
    if k in KIDARG and 'kids' in s:
        kw[KIDARG[k]] = [build(c) for c in s['kids']]
    if k in HAS_MD and s.get('md'):
        kw['metadata'] = [build(m) for m in s['md']]
    kw.update(extra)
    if k == 'mc':
        o = MetaChild(s['name'], **kw)
        if 'id' in s:
            o.id = s['id']
        if 'type' in s:
            o.type = s['type']
        return o
    return CLASS[k](**kw)


def norm(s, inherited=None):
    """Normal form of a spec: all keys present, effective namespace maps."""
    k = s['k']
    nsmap = s.get('nsmap')
    eff = dict(nsmap) if nsmap is not None else (inherited or {})
    d = {'k': k, 'id': s.get('id'), 'type': s.get('type'),
         'attrs': dict(s.get('attrs') or {}), 'ns': s.get('ns'),
         'nsmap': dict(eff)}
    if k in HAS_TEXT:
        d['text'] = s.get('text')
    if k == 'mc':
        d['name'] = s.get('name')
    if k in HAS_MD:
        d['md'] = [norm(m, eff) for m in s.get('md') or []]
    if k in CHILD:
        d['kids'] = [norm(c, eff) for c in s.get('kids') or []]
    return d


def kind(o):
    for k, c in CLASS.items():
        if type(o) is c:
            return k
    return type(o).__name__


def snap(o):
    """Normal-form snapshot of a real object (full mode) via public members."""
    k = kind(o)
    d = {'k': k, 'id': o.id, 'type': o.type, 'attrs': dict(o.attributes),
         'ns': o.namespace, 'nsmap': dict(o.nsmap)}
    if k in HAS_TEXT:
        d['text'] = o.text
    if k == 'mc':
        d['name'] = o.name
    if k in HAS_MD:
        d['md'] = [snap(m) for m in o.metadata]
    if k in CHILD:
        d['kids'] = [snap(c) for c in list(o)]
    return d


def diff(a, b, path=''):
    """First difference between two normal forms, as text, or None."""
    if type(a) is not type(b) and not (isinstance(a, (list, tuple))
                                       and isinstance(b, (list, tuple))):
        return '%s: %r != %r' % (path or '/', a, b)
    if isinstance(a, dict):
        for key in sorted(set(a) | set(b), key=str):
            if key not in a:
                return '%s: unexpected %s=%r' % (path or '/', key, b[key])
            if key not in b:
                return '%s: missing %s=%r' % (path or '/', key, a[key])
            r = diff(a[key], b[key], '%s/%s' % (path, key))
            if r:
                return r
        return None
    if isinstance(a, (list, tuple)):
        if len(a) != len(b):
            return '%s: %d elements != %d elements' % (path or '/', len(a), len(b))
        for i, (x, y) in enumerate(zip(a, b)):
            r = diff(x, y, '%s[%d]' % (path, i))
            if r:
                return r
        return None
    return None if a == b else '%s: %r != %r' % (path or '/', a, b)


def walk(o):
    """All objects of a real tree, document order (object, metadata, kids)."""
    yield o
    for m in getattr(o, 'metadata', None) or []:
        yield from walk(m)
    if kind(o) in CHILD:
        for c in list(o):
            yield from walk(c)


def parent(o):
    """The object that holds o, through public members where there are any."""
    for cls, name in ((Item, 'tier'), (Tier, 'igt'), (Igt, 'corpus')):
        if isinstance(o, cls):
            return getattr(o, name)
    if hasattr(o, '_parent'):
        return o._parent
    # no public member leads upwards: the one held object that holds o
    for v in vars(o).values() if hasattr(o, '__dict__') else ():
        if isinstance(v, (XigtCorpus, Igt, Tier, Metadata, Meta, MetaChild)):
            if any(x is o for x in list(v) + list(getattr(v, 'metadata', None) or [])):
                return v
    return None


def parent_links(o, expected_parent=None, path='/'):
    """Check every parent link below o; first error text or None."""
    for m in list(getattr(o, 'metadata', None) or []):
        if parent(m) is not o:
            return '%s metadata parent is %r' % (path, parent(m))
        r = parent_links(m, o, path + 'metadata/')
        if r:
            return r
    if kind(o) in CHILD:
        for i, c in enumerate(list(o)):
            if parent(c) is not o:
                return '%s[%d] parent is wrong' % (path, i)
            r = parent_links(c, o, '%s[%d]/' % (path, i))
            if r:
                return r
    return None


def full_igt(i='i1', n=1):
    """A conventional phrases/words/morphemes/glosses/translations IGT."""
    return igt(
        i,
        tier('p', item('p1', 'ab cd'), type='phrases'),
        tier('w', item('w1', attrs={'segmentation': 'p1[0:2]'}),
             item('w2', attrs={'segmentation': 'p1[3:5]'}),
             type='words', attrs={'segmentation': 'p'}),
        tier('m', item('m1', attrs={'segmentation': 'w1[0:1]'}),
             item('m2', attrs={'segmentation': 'w1[1:2]'}),
             item('m3', attrs={'segmentation': 'w2'}),
             type='morphemes', attrs={'segmentation': 'w'}),
        tier('g', item('g1', 'A', attrs={'alignment': 'm1'}),
             item('g2', 'B', attrs={'alignment': 'm2'}),
             item('g3', 'C', attrs={'alignment': 'm3'}),
             type='glosses', attrs={'alignment': 'm'}),
        tier('t', item('t1', 'the tr', attrs={'alignment': 'p1'}),
             type='translations', attrs={'alignment': 'p'}))
