"""Families of corpus specs shared by the codec checks (C14, C15, C16, C17)."""
import itertools
from mc.dom import corpus, igt, tier, item, metadata, meta, mc
from mc.xmlref import XMLNS

A, B = 'http://ex.org/a', 'urn:b#'
DC = 'http://purl.org/dc/elements/1.1/'
XSI = 'http://www.w3.org/2001/XMLSchema-instance'
CHARS = ['x', ' ', '\n', '\t', '&', '<', '>', '"', "'", ']', ';', '\u00e9',
         '\U0001d11e', '\u0301']
POINTS = ['\u0085', '\u00a0', '\u2028', '\u2029', '\ud7ff', '\ue000', '\ufeff', '\ufffd',
          '\U00010000', '\U0010ffff', '\u200b', '\u00ad', '\u0100', '\u05d0', '\u3042',
          '\u007f', '\u0080', '\u009f', '\u00ff', '\u1e9e']


def embed(kind, obj):
    """A corpus with obj, of that kind, at its natural place."""
    if kind == 'corpus':
        return obj
    if kind == 'igt':
        return corpus(obj)
    if kind == 'tier':
        return corpus(igt('i', obj))
    if kind == 'item':
        return corpus(igt('i', tier('t', obj)))
    if kind == 'metadata':
        return corpus(igt('i'), md=[obj])
    if kind == 'igt.metadata':
        return corpus(igt('i', md=[obj]))
    if kind == 'tier.metadata':
        return corpus(igt('i', tier('t', md=[obj])))
    if kind == 'meta':
        return embed('metadata', metadata(obj))
    if kind == 'mc':
        return embed('meta', meta(obj))
    if kind == 'mc.mc':
        return embed('mc', mc('m', obj))
    raise ValueError(kind)


KINDS = ['corpus', 'igt', 'tier', 'item', 'metadata', 'igt.metadata', 'tier.metadata',
         'meta', 'mc', 'mc.mc']
IDS = [None, 'a', 'A-1.x_\u00e9']
TYPES = [None, '', 't', 'a b']
ATTRS = [{}, {'alignment': 'x y'}, {'state': ''}, {'{%s}k' % A: 'v', 'k': 'w'},
         {'{%s}lang' % XMLNS: 'en', 'Id': '1'}, {'{%s}type' % DC: 'z'}]
TEXTS = [None, '', 'x', ' x\n y ', '  ', '<a>&amp;', '\u00e9\u3042']


def base(kind):
    return kind.split('.')[-1]


def fields(kind, json=False):
    """Every combination of the field values on one object of that kind."""
    k = base(kind)
    ids = IDS if k != 'mc' or json else [None]
    types = TYPES if k != 'mc' or json else [None]
    attrs = list(ATTRS)
    if k == 'mc':
        attrs += [{'id': '12', 'type': 'a b'}]
    texts = TEXTS if k in ('item', 'meta', 'mc') else [None]
    for i, ty, at, tx, ns in itertools.product(ids, types, attrs, texts,
                                               [None, A, 'urn:unbound'] if json
                                               else [None, A]):
        o = {'k': k}
        if i is not None:
            o['id'] = i
        if ty is not None:
            o['type'] = ty
        if at:
            o['attrs'] = at
        if tx is not None:
            o['text'] = tx
        if ns is not None:
            o['ns'] = ns
        if k == 'mc':
            o['name'] = 'm-1.\u00e9' if ty is None else 'm'
        if k != 'item':
            o['kids'] = []
        c = embed(kind, o)
        c['nsmap'] = {'a': A}
        yield c
        if tx and k in ('meta', 'mc'):
            o2 = dict(o, kids=[mc('c', text='y'), mc('d')])
            c = embed(kind, o2)
            c['nsmap'] = {'a': A}
            yield c


def structures(big=False):
    """All nestings: corpus with up to 2 igts, igt with up to 2 tiers, tier with
    up to 2 items, metadata at each level."""
    def md(n, p):
        return [metadata(*[meta(type='m', text='%s%d' % (p, j)) for j in range(i)])
                for i in range(n)]

    def mktier(s, i):
        m, n = s
        return tier('t%d' % i, *[item('t%d.%d' % (i, j), 'x') if j else item(text='y')
                                 for j in range(n)], md=md(m, 'T'))

    def mkigt(s, i):
        m, ts = s
        return igt('i%d' % i, *[mktier(t, j) for j, t in enumerate(ts)], md=md(m, 'I'))
    tiers = list(itertools.product((0, 2), (0, 1, 2)))
    igts = [(m, ts) for m in (0, 2) for n in range(3)
            for ts in itertools.product(tiers, repeat=n)]
    small = [g for g in igts if len(g[1]) < 2]
    second = igts if big else small
    for m in (0, 1, 3):
        yield corpus(md=md(m, 'C'))
        for g in igts:
            yield corpus(mkigt(g, 0), md=md(m, 'C'))
        for g, h in itertools.product(igts if big else small, second):
            yield corpus(mkigt(g, 0), mkigt(h, 1), md=md(m, 'C'))
    for n in (3, 5):
        yield corpus(*[mkigt(g, j) for j, g in enumerate(igts[5:5 + n])])


def forests(n):
    """Ordered forests with exactly n nodes, as nested tuples."""
    if n == 0:
        yield ()
        return
    for k in range(1, n + 1):          # size of the first tree
        for kids in forests(k - 1):
            for rest in forests(n - k):
                yield (kids,) + rest


def nested(n, names=('x', 'igt', 'item', 'metadata', 'xigt-corpus')):
    """All forests of n nested metadata elements, with confusing names."""
    for f in forests(n):
        for nm in itertools.product(names, repeat=n):
            for tx in itertools.product((None, 'v'), repeat=n):
                it = iter(zip(nm, tx))

                def mk(t):
                    name, text = next(it)
                    return mc(name, *[mk(c) for c in t], text=text)
                yield [mk(t) for t in f]


def with_nested(n):
    for kids in nested(n):
        yield corpus(igt('i', tier('t', item('a', 'z'))), igt('j'),
                     md=[metadata(meta(*kids, type='q'), meta(text='w'))])
        if n < 3:
            yield corpus(igt('i', tier('t', md=[metadata(meta(*kids))]),
                             md=[metadata(meta(*kids))]), igt('j'))


DECL = [None, {'a': A}, {'a': B}, {'b': A}, {'': A}]
DECLM = DECL + [{'': ''}, {'': B, 'a': A}]


def _nschoices(eff):
    """Namespaces an element may have under these bindings."""
    uris = []
    for u in eff.values():
        if u and u not in uris:
            uris.append(u)
    return uris if eff.get('') else [None] + uris


def _nsattrs(eff):
    at = {'k': '0'}
    for p, u in sorted(eff.items()):
        if p and u:
            at['{%s}k' % u] = 'v'
    return at


def chain(decls, kinds, pick):
    """One object of each kind nested in the previous, with its declarations
    (own map = inherited bindings plus own ones) and the pick-th namespace."""
    eff = {}
    objs = []
    for d, k, p in zip(decls, kinds, pick):
        if d:
            eff = dict(eff)
            eff.update(d)
        ch = _nschoices(eff)
        if p >= len(ch):
            return None
        o = {'k': k, 'attrs': _nsattrs(eff)}
        if k == 'mc':
            o['name'] = 'm'
        if ch[p] is not None:
            o['ns'] = ch[p]
        if d:
            o['nsmap'] = dict(eff)
        objs.append(o)
    return objs


def namespaces_core():
    kinds = ['corpus', 'igt', 'tier', 'item']
    for decls in itertools.product(DECL, repeat=4):
        for pick in itertools.product(range(3), repeat=4):
            c = chain(decls, kinds, pick)
            if c:
                for a, b in zip(c, c[1:]):
                    a['kids'] = [b]
                yield c[0]


def namespaces_md(big=False):
    kinds = ['corpus', 'meta', 'mc', 'mc']
    picks = [(a, b, c, d) for a in range(2 if big else 1) for b in range(2 if big else 1)
             for c in range(3) for d in range(3)]
    for decls in itertools.product(DECLM, repeat=4):
        for pick in picks:
            c = chain(decls, kinds, pick)
            if c:
                top, me, m1, m2 = c
                m1['kids'] = [m2]
                me['kids'] = [m1]
                mdo = {'k': 'metadata', 'kids': [me]}
                eff = top.get('nsmap') or {}
                if eff.get(''):
                    mdo['ns'] = eff['']
                top['md'] = [mdo]
                top['kids'] = []
                yield top


def clashes():
    """Attributes of a well-known namespace that no prefix is declared for, at every one
    or two levels, while its usual prefix (and more) is declared for others at any."""
    for kinds, pre, uri in ((['corpus', 'igt', 'tier', 'item'], 'dc', DC),
                            (['corpus', 'meta', 'mc', 'mc'], 'xsi', XSI)):
        decl = [None, {pre: 'urn:o'}, {pre: uri}, {pre: 'urn:o', pre + '1': 'urn:p'}]
        levels = [c for n in (1, 2) for c in itertools.combinations(range(4), n)]
        for decls, at in itertools.product(itertools.product(decl, repeat=4), levels):
            for own in range(2):
                objs = chain(decls, kinds, (own,) * 4)
                if not objs:
                    continue
                for k in at:
                    objs[k]['attrs'] = dict(objs[k]['attrs'], **{'{%s}code' % uri: 'v'})
                if kinds[1] == 'igt':
                    for a, b in zip(objs, objs[1:]):
                        a['kids'] = [b]
                else:
                    top, me, m1, m2 = objs
                    m1['kids'], me['kids'] = [m2], [m1]
                    top['md'] = [{'k': 'metadata', 'kids': [me]}]
                    top['kids'] = []
                yield objs[0]


def siblings():
    """Three objects of one kind side by side, every choice of declarations on each
    (and their own namespace and attributes in those in scope), below an object
    with no, one or many declarations."""
    many = {'a': B, 'z': 'urn:z'}
    many.update(('n%d' % i, 'urn:n%d' % i) for i in range(9))
    for kind in ('igt', 'tier', 'item', 'metadata', 'igt.metadata', 'meta', 'mc', 'mc.mc'):
        for outer in (None, {'a': A}, many):
            for decls in itertools.product(DECL, repeat=3):
                sibs = []
                for j, d in enumerate(decls):
                    eff = dict(outer or {})
                    eff.update(d or {})
                    k = base(kind)
                    o = {'k': k, 'attrs': _nsattrs(eff)}
                    o['attrs']['n'] = str(j)
                    if k == 'mc':
                        o['name'] = 'm'
                    ch = _nschoices(eff)
                    if ch[-1 - j % len(ch)] is not None:
                        o['ns'] = ch[-1 - j % len(ch)]
                    if d:
                        o['nsmap'] = eff
                    if k == 'igt':
                        under(o, eff)
                    sibs.append(o)
                c = embed(kind, sibs[0])
                into(c, sibs)
                if outer:
                    c['nsmap'] = dict(outer)
                yield c


def under(o, eff):
    """A tier and an item below o, in its namespace."""
    i = dict(item('x', 'y'), attrs=_nsattrs(eff))
    t = dict(tier('t', i), attrs=_nsattrs(eff))
    for x in (i, t):
        if eff.get(''):
            x['ns'] = eff['']
    o['kids'] = [t]


def into(c, sibs):
    """Put the siblings of sibs[0], which is in c, behind it."""
    for f in ('kids', 'md'):
        xs = c.get(f) or []
        if any(x is sibs[0] for x in xs):
            c[f] = list(sibs)
            return True
        if any(into(x, sibs) for x in xs):
            return True
    return False


SIZES = (4, 7, 11, 33, 70, 130)
LENGTHS = (255, 256, 1023, 4096, 8191, 8192, 8193, 65535, 65536, 65537, 70001)


def wide():
    """Many of one thing: members of every kind, attributes, prefixes, levels of
    metadata; and long texts, attributes, ids and names."""
    for n in SIZES:
        yield corpus(*[igt('i%d' % j if j % 3 else None, tier('t', item('x', str(j))))
                       for j in range(n)])
        yield corpus(igt('i', *[tier('t%d' % j if j % 3 else None, item('x', str(j)))
                                for j in range(n)]), igt('j'))
        yield corpus(igt('i', tier('t', *[item('x%d' % j if j % 3 else None, str(j % 5))
                                          for j in range(n)]), tier('u')), igt('j'))
        for kind in ('corpus', 'igt', 'tier'):
            ms = [metadata(meta(text=str(j))) for j in range(n)]
            c = corpus(igt('i', tier('t', item('x', 'y'))), igt('j'))
            {'corpus': c, 'igt': c['kids'][0], 'tier': c['kids'][0]['kids'][0]}[kind]['md'] = ms
            yield c
        yield corpus(igt('i'), md=[metadata(*[meta(text=str(j)) for j in range(n)]),
                                   metadata(meta(text='z'))])
        yield corpus(igt('i'), md=[metadata(meta(*[mc('c%d' % (j % 7), text=str(j))
                                                   for j in range(n)]), meta(text='z'))])
        deep = mc('m', text='d')
        for j in range(n):
            deep = mc('m%d' % (j % 3), deep, mc('s'), text=str(j))
        yield corpus(igt('i'), md=[metadata(meta(deep, mc('e')), meta(text='z'))])
        at = {('k%d' % j): str(j) for j in range(n)}
        ns = {('p%d' % j): 'urn:p%d' % j for j in range(n)}
        at2 = {'{urn:p%d}k' % j: str(j) for j in range(n)}
        yield corpus(igt('i', tier('t', item('x', 'y', attrs=at), attrs=at), attrs=at),
                     igt('j', attrs={'k': '1'}), attrs=at)
        yield corpus(igt('i', tier('t', item('x', 'y', attrs=at2, ns='urn:p0'), attrs=at2),
                         attrs=at2, ns='urn:p%d' % (n - 1)), igt('j'), attrs=at2, nsmap=ns)
        yield corpus(*[igt('i%d' % j, tier('t', item('x', 'y', ns='urn:p%d' % j)),
                           nsmap={'p%d' % j: 'urn:p%d' % j}, ns='urn:p%d' % j)
                       for j in range(n)])
    for n in LENGTHS:
        t = 'ab<c\u3042' * (n // 5) + 'x' * (n % 5)
        yield corpus(igt('i', tier('t', item('x', t), item('y', 'z'))), igt('j'))
        yield corpus(igt('i', attrs={'k': t}), igt('j', type=t), attrs={'k': t})
        yield corpus(igt('i'), md=[metadata(meta(text=t), meta(mc('m', text=t), text=t))])
        yield corpus(igt('a' + 'b' * (n - 1)), igt('j'))


def strings(n, json=False):
    """All strings over CHARS up to length n, plus single unusual code points."""
    chars = CHARS + ['\\', '\r', '\0'] if json else CHARS
    for k in range(n + 1):
        for t in itertools.product(chars, repeat=k):
            yield ''.join(t)
    for p in POINTS + (['\ud800', '\x01', '\x1b', '\ufffe', '\uffff'] if json else []):
        yield p
        yield 'x' + p + 'y'


def texts(n, batch=16, json=False):
    """Batches of strings placed wherever text can be."""
    ss = list(strings(n, json))
    for i in range(0, len(ss), batch):
        b = ss[i:i + batch]
        yield corpus(
            igt('i', tier('t', *[item('t%d' % j, s, attrs={'q': s, '{%s}k' % A: s})
                                 for j, s in enumerate(b)])),
            igt('j', attrs={'q': b[0]}, type=b[-1], md=[metadata(
                *[meta(mc('u', mc('v', text=s), text=s, attrs={'q': s}), type=s, text=s) for s in b])]),
            md=[metadata(*[meta(type='q', text=s) for s in b],
                         attrs={'q%d' % j: s for j, s in enumerate(b)})],
            nsmap={'a': A})
