"""XigtPath expressions as syntax trees, their rendering, and a reference
evaluator over real objects (public members only).

  path  = (abs, [step...])            abs: '' relative, '/' or '//' absolute
  step  = (sep, test, [pred...])      sep: '/' or '//' (the first step: abs or '/')
  test  = ('n', name) ('.',) ('..',) ('@', name) ('f', name, [args]) ('u', [path...])
  pred  = ('ex', path) ('eq', path, value) ('ne', path, value)
"""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from mc.dom import parent

NAMES = {XigtCorpus: 'xigtcorpus', Igt: 'igt', Tier: 'tier', Item: 'item',
         Metadata: 'metadata', Meta: 'meta'}


class Undef(Exception):
    """The expression has no defined meaning in this context."""


def quote(v):
    return '"%s"' % v.replace('\\', '\\\\').replace('"', '\\"')


def render(path, sp=''):
    """sp: text put around operators and brackets."""
    ab, steps = path
    out = []
    for i, (sep, test, preds) in enumerate(steps):
        out.append(ab if i == 0 else sep)
        k = test[0]
        if k == 'n':
            out.append(test[1])
        elif k in ('.', '..'):
            out.append(k)
        elif k == '@':
            out.append('@' + sp * 0 + test[1])
        elif k == 'f':
            out.append('%s(%s)' % (test[1], (',' + sp).join(quote(a) for a in test[2])))
        else:
            out.append('(' + sp + (sp + '|' + sp).join(render(p, sp) for p in test[1])
                       + sp + ')')
        for p in preds:
            out.append('[' + sp + render(p[1], sp))
            if p[0] != 'ex':
                out.append(sp + {'eq': '=', 'ne': '!='}[p[0]] + sp + quote(p[2]))
            out.append(sp + ']')
    return ''.join(out)


def elname(o):
    return o.name if type(o) is MetaChild else NAMES[type(o)]


def kids(o):
    if type(o) in (XigtCorpus, Igt, Tier):
        return list(o.metadata) + list(o)
    if type(o) is Item:
        return []
    return list(o)


def nsmatch(o, prefix, ctx):
    if prefix is None:
        return True
    return o.namespace == ctx.nsmap.get(prefix, prefix)


def split(name):
    if ':' in name:
        return tuple(name.split(':', 1))
    return None, name


def child(o, name):
    pre, n = split(name)
    for c in kids(o):
        if n in ('*', elname(c)) and nsmatch(c, pre, o):
            yield c


def descend(o, name):
    pre, n = split(name)
    if n in ('*', elname(o)) and nsmatch(o, pre, o):
        yield o
    for c in kids(o):
        yield from descend(c, name)


def attr(o, name):
    if name in ('id', 'type', 'name'):
        v = getattr(o, name, None)
        return [] if v is None else [v]
    pre, n = split(name)
    uri = None if pre is None else o.nsmap.get(pre, pre)
    if n == '*':
        return [v for k, v in o.attributes.items()
                if pre is None or k.startswith('{%s}' % uri)]
    key = n if pre is None else '{%s}%s' % (uri, n)
    return [o.attributes[key]] if key in o.attributes else []


def root(o):
    while type(o) is not XigtCorpus:
        o = parent(o)
    return o


REFATTRS = ('alignment', 'content', 'segmentation')


def _ids(expr):
    """Ids of a reference value (fixtures use plain ids with ranges)."""
    out, i = [], 0
    while i < len(expr):
        c = expr[i]
        if c == '[':
            i = expr.index(']', i) + 1
        elif c in ' ,+':
            i += 1
        else:
            j = i
            while j < len(expr) and expr[j] not in ' ,+[':
                j += 1
            out.append(expr[i:j])
            i = j
    return out


def refs(o, fn, args):
    if type(o) not in (Tier, Item):
        raise Undef(fn)
    igt = o.igt
    out = []
    everything = list(igt) + [i for t in igt for i in t]
    for ra in sorted(set(args or REFATTRS)):
        if fn == 'referent':
            for i in _ids(o.attributes.get(ra, '')):
                hit = [x for x in everything if x.id == i]
                if hit:
                    out.append(hit[0])
        else:
            pool = list(igt) if type(o) is Tier else everything[len(igt):]
            out += [x for x in pool if x.id is not None and o.id is not None
                    and o.id in _ids(x.attributes.get(ra, ''))]
    return out


def function(o, fn, args):
    if fn == 'text':
        if type(o) not in (Item, Meta, MetaChild):
            raise Undef('text')
        return [] if o.text is None else [o.text]
    if fn == 'value':
        if type(o) is not Item:
            raise Undef('value')
        v = o.value()
        return [] if v is None else [v]
    return refs(o, fn, args)


def evaluate(path, ctxs):
    """List of results; objects may repeat (one per way of reaching them)."""
    ab, steps = path
    objs = list(ctxs)
    if ab:
        objs = [root(objs[0])]
    for i, (sep, test, preds) in enumerate(steps):
        if i == 0:
            sep = ab or '/'
        k = test[0]
        out = []
        for o in objs:
            if isinstance(o, str):
                raise Undef('step below a string')
            if sep == '//':
                if k != 'n':
                    raise Undef('// needs a name')
                out += descend(o, test[1])
            elif k == 'n':
                out += child(o, test[1])
            elif k == '.':
                out.append(o)
            elif k == '..':
                p = parent(o)
                if p is not None:
                    out.append(p)
            elif k == '@':
                out += attr(o, test[1])
            elif k == 'f':
                out += function(o, test[1], test[2])
            else:
                for alt in test[1]:
                    out += evaluate(alt, [o])
        for p in preds:
            out = [o for o in out if holds(o, p)]
        objs = out
    return objs


def holds(o, p):
    if isinstance(o, str):
        raise Undef('predicate on a string')
    r = evaluate(p[1], [o])
    if p[0] == 'ex':
        return bool(r)
    eq = [isinstance(v, str) and v == p[2] for v in r]
    return any(eq) if p[0] == 'eq' else not any(eq)


def same(a, b):
    """Results agree: identical objects / equal strings, in order."""
    if len(a) != len(b):
        return False
    return all(x is y or (isinstance(x, str) and isinstance(y, str) and x == y)
               for x, y in zip(a, b))


def label(o):
    if isinstance(o, str) or o is None:
        return repr(o)
    return '<%s %s>' % (elname(o), o.id)


# ------------------------------------------------------------------ fixtures

def fixtures():
    from mc.dom import (corpus, igt, tier, item, metadata, meta, mc, build, full_igt)
    A, B = 'http://ex.org/a', 'urn:b'
    g1 = full_igt('g1')
    g1['type'] = 'T'
    g1['md'] = [metadata(meta(mc('subject', mc('x', text='deep', attrs={'{%s}k' % A: '7'}),
                                 ns=A, text='Japanese', attrs={'{%s}code' % A: 'jpn',
                                                               'code': 'x'}),
                              mc('subject', text='plain'),
                              mc('igt', mc('item', text='nested'), text='confusing'),
                              type='lang', id='m1'), meta(text='note', type='n'),
                         type='xigt-meta', id='md1'),
                metadata(ns=A, type='other')]
    g1['attrs'] = {'k': 'v', '{%s}k' % A: 'w', '{%s}z' % B: 'q'}
    g1['kids'][2]['md'] = [metadata(meta(text='tiermeta'))]
    g1['kids'].append(tier('o', item('o0', '', attrs={'alignment': '', 'k': ''}), item('o1', 'odd "q" \\ ]=', ns=A, type='sub'),
                           item('o2', '', attrs={'alignment': 'gone m1'}),
                           item('o3', attrs={'alignment': 'm1[0:1],w1+m1[0:1]',
                                             'content': 'w2'}),
                           item(None, 'no id', attrs={'alignment': 'm2,g1'}),
                           type='odd', ns=A, attrs={'alignment': 'm', 'content': 'w'}))
    g1['kids'].append(tier(None, attrs={'alignment': 'o', 'segmentation': 'w'}))
    # members without members come first everywhere
    g1['kids'].insert(0, tier('e0'))
    g1['md'].insert(0, metadata())
    g1['md'][1]['kids'].insert(0, meta())
    # neighbours that are equal, and texts with spaces at their ends
    twin = [tier(None, *[item(None, t) for t in ('p', 'p', ' p', 'p ', '\n')], type='odd')
            for _ in range(2)]
    g2 = igt('g2', tier('p', item('p1', 'zz'), type='phrases'), *twin,
             tier('em', item('em1', '', attrs={'k': ''}), item('em2', 'x', attrs={'k': 'v'})),
             md=[metadata(*[meta(mc('x', text=' p '), mc('x', text=' p '), text='p ')
                            for _ in range(2)]) for _ in range(2)])
    c1 = corpus(igt('g0'), g1, g2, igt('g3'), igt(None), igt(None), id='c', nsmap={'a': A, 'b': B},
                md=[metadata(
                    meta(mc('text', text='T'), mc('values', text='V'),
                         mc('a.b', mc('meta', text='mm'), text='D'),
                         mc('referents', ns=B), type='names'), id='cm')],
                attrs={'k': 'ck'})
    c2 = corpus(id='empty')
    return [build(c1), build(c2)]


SIZES = [5, 8, 9, 10, 11, 12, 16, 17, 32, 33, 64, 65, 100, 101, 129]


def big(n):
    """n igts; one with n tiers, one with n items, one of a deeply nested meta."""
    from mc.dom import corpus, igt, tier, item, metadata, meta, mc, build
    deep = mc('x', text='d0')
    for k in range(1, n):
        deep = mc('x', deep, text='d%d' % k)
    gs = [igt('g%d' % k, attrs={'k': str(k % 3)}) for k in range(max(n - 3, 0))]
    gs += [igt('one', tier('o', item('o1', 'v', attrs={'alignment': 'o1'}), type='T',
                           attrs={'alignment': 'o'}),
               md=[metadata(meta(deep, text='t'))], type='I'),
           igt('tiers', *[tier('t%d' % k, item('t%di' % k, 'v%d' % k), type='T%d' % (k % 4))
                          for k in range(n)]),
           igt('items', tier('is', *[item('i%d' % k, 'v%d' % k, attrs={'alignment': 'i0'})
                                     for k in range(n)], attrs={'alignment': 'is'}))]
    return build(corpus(*gs, id='c'))


def contexts(xc):
    """One object of each kind (and variety), by position."""
    yield 'corpus', xc
    if not len(xc):
        return
    g = xc['g1']
    yield 'igt', g
    yield 'tier p', g['p']
    yield 'tier o', g['o']
    yield 'item', g['w']['w1']
    yield 'item o1', g['o']['o1']
    yield 'metadata', g.metadata[1]
    yield 'meta', g.metadata[1][1]
    yield 'mc', g.metadata[1][1][0]
    yield 'names', xc.metadata[0][0]
    yield 'mc a.b', xc.metadata[0][0][2]


def compare(xp, path, ctx_name, obj, sp, Violation):
    """Evaluate on the real code and the reference; returns the results."""
    try:
        want = evaluate(path, [obj])
    except Undef:
        return None
    text = render(path, sp)
    got = xp.findall(obj, text)
    if not same(want, got):
        raise Violation('findall(%s, %r): %s, expected %s' % (
            ctx_name, text, [label(o) for o in got][:8], [label(o) for o in want][:8]))
    first = xp.find(obj, text)
    if not same(want[:1], [] if first is None else [first]):
        raise Violation('find(%s, %r): %s, expected %s' % (
            ctx_name, text, label(first), [label(o) for o in want[:1]]))
    if not same(want, list(xp.iterfind(obj, text))):
        raise Violation('iterfind(%s, %r) differs from findall' % (ctx_name, text))
    return want
