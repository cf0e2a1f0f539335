"""C04: equality is equality of content."""
import copy
import itertools
from mc.core import Violation
from mc import dom, sizes
from mc.dom import S, build, norm

ID = 'C04'
LEVEL = 'exploration'
RULE = ('for every kind of object: a base description plus every combination of at '
        'most 2 (thorough 3) single-field deviations at any depth; all ordered pairs '
        'of the resulting objects of all kinds are compared with == and !=, against '
        'equality of the descriptions (kind, id, type, attributes, namespace, text, '
        'name, metadata and members in order); the same content reached through '
        'all histories of up to two detours (renaming, moving, refilling, looking '
        'up ...) at any place; members, attributes, texts and nesting of a ladder of sizes '
        'with one deviation at every (boundary) position; distinct = distinct ordered '
        'pairs / histories')
ASSUMPTIONS = ['namespace prefix maps are not part of the content compared']
BOUNDS = {'quick': 'pairs of variants with <= 1 deviation (all kinds), <= 2 within a kind',
          'thorough': 'pairs of variants with <= 2 deviations'}


def bases():
    m = dom.metadata(dom.meta(dom.mc('k', dom.mc('j', text='x', attrs={'q': '1'}),
                                     attrs={'q': '1'}),
                              id='me1', type='mt', text='tx'),
                     dom.meta(id='me2', type='mt2'),
                     id='md1', type='xigt-meta')
    mx = dom.meta(dom.mc('k'), dom.mc('k', text='y'), id='a', type='t', text='tx',
                  attrs={'q': '1'}, ns='u:1')
    mcx = dom.mc('n', dom.mc('k'), dom.mc('k', text='y'), text='tx', attrs={'q': '1'},
                 ns='u:1')
    mcx['id'] = 'a'; mcx['type'] = 't'
    return {
        'item': dom.item('a', 'tx', type='t', attrs={'q': '1', 'alignment': 'b1'}, ns='u:1'),
        'tier': dom.tier('a', dom.item('b1', 'x'), dom.item('b2', 'y', type='q'),
                         type='t', attrs={'q': '1'}, md=[m], ns='u:1'),
        'igt': dom.igt('a', dom.tier('b1', dom.item('c1', 'x')), dom.tier('b2'),
                       type='t', attrs={'q': '1'}, md=[m], ns='u:1'),
        'corpus': dom.corpus(dom.igt('b1', dom.tier('c1', dom.item('d1', 'x'))),
                             dom.igt('b2'), id='a', type='t', attrs={'q': '1'},
                             md=[m], ns='u:1'),
        'metadata': dict(copy.deepcopy(m), ns='u:1'),
        'meta': mx, 'mc': mcx,
    }


def plains():
    """Objects of every kind with exactly the same fields."""
    out = []
    for f in ({}, {'id': 'a'}, {'id': 'a', 'type': 't'}, {'text': 'x'},
              {'id': 'a', 'text': 'x', 'attrs': {'q': '1'}}):
        for k in ('item', 'tier', 'igt', 'corpus', 'metadata', 'meta', 'mc'):
            s = {'k': k}
            s.update({a: b for a, b in f.items()
                      if a != 'text' or k in dom.HAS_TEXT})
            if k == 'mc':
                s['name'] = 'n'
            out.append(s)
    return out


def mutations(s, path=()):
    """All single-field deviations: (path, description, function)."""
    k = s['k']
    def setter(key, val):
        def f(d):
            if val is DEL:
                d.pop(key, None)
            else:
                d[key] = val
        return f
    muts = []
    muts += [('id', setter('id', 'z' + ''.join(a[0] + str(b) for a, b in path))), ('id-', setter('id', DEL)),
             ('type', setter('type', 'other')), ('type-', setter('type', DEL)),
             ('type""', setter('type', '')),
             ('ns', setter('ns', 'u:2')), ('ns-', setter('ns', DEL))]
    if k in dom.HAS_TEXT:
        muts += [('text', setter('text', 'other')), ('text-', setter('text', DEL)),
                 ('text""', setter('text', ''))]
    if k == 'mc':
        muts += [('name', setter('name', 'zname'))]
    def attr(key, val):
        def f(d):
            a = dict(d.get('attrs') or {})
            if val is DEL:
                a.pop(key, None)
            else:
                a[key] = val
            d['attrs'] = a
        return f
    muts += [('q', attr('q', '2')), ('q-', attr('q', DEL)), ('r', attr('r', '1')),
             ('{u}q', attr('{u:9}q', '1'))]
    if k in dom.CHILD and s.get('kids'):
        def drop(d): d['kids'] = d['kids'][:-1]
        def rev(d): d['kids'] = d['kids'][::-1]
        def more(d):
            d['kids'] = d['kids'] + [S(dom.CHILD[k], **({'name': 'w'} if
                                      dom.CHILD[k] == 'mc' else {}))]
        def none(d): d['kids'] = []
        muts += [('drop', drop), ('more', more), ('none', none)]
        if len(s['kids']) > 1:
            muts += [('rev', rev)]
    if k in dom.HAS_MD and s.get('md'):
        def mddrop(d): d['md'] = []
        def mdmore(d): d['md'] = d['md'] + [S('metadata')]
        muts += [('mddrop', mddrop), ('mdmore', mdmore)]
    for name, f in muts:
        yield path, name, f
    for key in ('md', 'kids'):
        for i, c in enumerate(s.get(key) or []):
            yield from mutations(c, path + ((key, i),))


DEL = object()


def apply(base, muts):
    s = copy.deepcopy(base)
    for path, name, f in muts:
        d = s
        try:
            for key, i in path:
                d = d[key][i]
        except IndexError:
            return None
        f(d)
    return s


def content(s):
    """Content of a description, without prefix maps."""
    d = norm(s)
    def strip(x):
        x.pop('nsmap')
        for c in x.get('md', []) + x.get('kids', []):
            strip(c)
    strip(d)
    return d


def variants(kind, depth):
    base = bases()[kind]
    out = []
    for d in range(depth + 1):
        for ms in itertools.combinations(list(mutations(base)), d):
            s = apply(base, ms)
            if s is not None:
                out.append(s)
    return out


KINDS = ('item', 'tier', 'igt', 'corpus', 'metadata', 'meta', 'mc')
NB = 40


def cases(tier):
    for k in KINDS:
        yield ['self', k]
    for k in KINDS:
        yield ['hist', k]
    yield ['plain']
    for n in sizes.SIZES + ((1001,) if tier == 'thorough' else ()):
        for k in dom.CHILD:
            yield ['size', k, 'kids', n]
        for k in dom.HAS_MD:
            if n <= 65 or tier == 'thorough':
                yield ['size', k, 'md', n]
        for k in KINDS:
            if n <= 65 or k == 'item':
                yield ['size', k, 'text', n]
                yield ['size', k, 'attrs', n]
        if n <= 129:
            yield ['size', 'mc', 'deep', n]
    yield ['foreign']
    for k in KINDS:
        for b in range(NB):
            yield ['pairs', k, 1, b]
    for k in KINDS:
        for b in range(NB):
            yield ['pairs2', k, b]
    if tier == 'thorough':
        for k in ('item', 'mc', 'meta'):
            for b in range(NB):
                yield ['pairs', k, 2, b]


def cmp(a, b, want, what):
    for op, got, exp in (('==', a == b, want), ('!=', a != b, not want),
                         ('== (swapped)', b == a, want),
                         ('!= (swapped)', b != a, not want)):
        if got is not exp:
            raise Violation('%s: %s gives %r, expected %r' % (what(), op, got, exp))


def run(case, ctx):
    mode = case[0]
    if mode == 'size':
        return size(case, ctx)
    if mode == 'self':
        base = bases()[case[1]]
        a, b = build(base), build(base)
        cmp(a, a, True, lambda: 'an object and itself %r' % base)
        cmp(a, b, True, lambda: 'two objects with equal content %r' % base)
        # attribute insertion order and prefix maps are not content
        c = copy.deepcopy(base)
        c['attrs'] = dict(reversed(list((c.get('attrs') or {}).items())))
        c['nsmap'] = {'p': 'u:1', 'r': 'u:7'}
        cmp(a, build(c), True, lambda: 'attribute order / prefix map of %r' % base)
        # an object does not change by being compared or by living in a container
        owner = {'item': 'tier', 'tier': 'igt', 'igt': 'corpus'}.get(case[1])
        if owner:
            o = build({'k': owner, 'kids': [base]})
            cmp(a, o[0], True, lambda: 'contained and free %r' % base)
        ctx.ev(('self', case[1]))
        return
    if mode == 'hist':
        return hist(case, ctx)
    if mode in ('plain', 'foreign'):
        specs = plains() + [bases()[k] for k in KINDS]
        objs = [build(s) for s in specs]
        cons = [content(s) for s in specs]
        if mode == 'plain':
            for (i, a), (j, b) in itertools.product(enumerate(objs), enumerate(objs)):
                cmp(a, b, cons[i] == cons[j],
                    lambda: '%r and %r' % (specs[i], specs[j]))
                ctx.ev(('plain', i, j))
        else:
            for i, a in enumerate(objs):
                for f in (None, 0, '', 'a', [], [1], {}, (), object(), type(a)):
                    cmp(a, f, False, lambda: '%r and %r' % (specs[i], f))
                    ctx.ev(('foreign', i, repr(f)[:20]))
        return
    if mode == 'pairs':
        _, kind, depth, blk = case
        vs = variants(kind, depth)
        objs = [build(s) for s in vs]
        cons = [content(s) for s in vs]
        for i in range(len(vs)):
            if i % NB != blk:
                continue
            for j in range(len(vs)):
                if depth > 1 and j > i:
                    break
                w = cons[i] == cons[j]
                cmp(objs[i], objs[j], w,
                    lambda: '%s: %r and %r' % (kind, vs[i], vs[j]))
                ctx.ev((kind, depth, i, j))
                ctx.out('equal' if w else 'different')
        ctx.sample([vs[-1]])
        return
    # pairs2: two deviations against the base and against each single deviation
    _, kind, blk = case
    base = bases()[kind]
    bo, bc = build(base), content(base)
    ms = list(mutations(base))
    singles = [(build(apply(base, (m,))), content(apply(base, (m,)))) for m in ms]
    for n, (x, y) in enumerate(itertools.combinations(range(len(ms)), 2)):
        if n % NB != blk:
            continue
        s = apply(base, (ms[x], ms[y]))
        if s is None:
            continue
        o, c = build(s), content(s)
        cmp(o, bo, c == bc, lambda: '%s: %r and the base' % (kind, s))
        for z in (x, y):
            cmp(o, singles[z][0], c == singles[z][1],
                lambda: '%s: %r and its single deviation %r' % (kind, s, ms[z][:2]))
        ctx.ev((kind, 'two', n))


# --- much content: one deviation at every (boundary) position

def size(case, ctx):
    _, kind, what, n = case
    base = {'k': kind, 'id': 'a', 'type': 't', 'attrs': {'q': '1'}}
    if kind == 'mc':
        base['name'] = 'n'
    ck = dom.CHILD.get(kind) if what == 'kids' else 'metadata'
    ps = sizes.positions(n)
    out = []
    if what in ('kids', 'md'):
        def member(i):
            d = {'k': ck, 'type': 't%d' % (i % 3), 'attrs': {'q': str(i % 4)},
                 'ns': 'u:%d' % (i % 2)}
            if ck == 'mc':
                d['name'] = 'n%d' % i
            elif i % 5:
                d['id'] = 'm%d' % i
            if ck in dom.HAS_TEXT:
                d['text'] = 'x%d' % i
            return d
        mem = [member(i) for i in range(n)]
        base[what] = mem
        for p in ps:
            fields = [('type', 'o'), ('type', None), ('ns', 'u:9'), ('attrs', {'q': 'o'}),
                      ('attrs', {}), ('id', 'z')]
            fields += [('text', 'o'), ('text', None)] if ck in dom.HAS_TEXT else []
            fields += [('name', 'z')] if ck == 'mc' else []
            for f, v in fields:
                m = dict(mem[p])
                m[f] = v
                if v is None:
                    del m[f]
                out.append((f, p, mem[:p] + [m] + mem[p + 1:]))
            out.append(('drop', p, mem[:p] + mem[p + 1:]))
            out.append(('more', p, mem[:p] + [member(n)] + mem[p:]))
            out.append(('cut', p, mem[:p]))
            if p:
                out.append(('swap', p, mem[:p - 1] + [mem[p], mem[p - 1]] + mem[p + 1:]))
        out.append(('more', n, mem + [member(n)]))
        out = [(f, p, dict(base, **{what: m})) for f, p, m in out]
    elif what == 'text':
        if kind not in dom.HAS_TEXT:
            base['type'] = None
            key = 'type'        # a long type instead
        else:
            key = 'text'
        s = ''.join('abcdefg'[i % 7] for i in range(n))
        base[key] = s
        for p in ps:
            for f, v in (('char', s[:p] + 'x' + s[p + 1:]), ('case', s[:p] + s[p].upper() + s[p + 1:]),
                         ('drop', s[:p] + s[p + 1:]), ('cut', s[:p]),
                         ('more', s[:p] + 'x' + s[p:])):
                out.append((f, p, dict(base, **{key: v})))
        for v in (s + ' ', s + s, ' ' + s, s + '\n'):
            out.append(('more', n, dict(base, **{key: v})))
        base['id'] = 'i' + s
        out = [(f, p, dict(d, id='i' + s)) for f, p, d in out]
        out += [('id', p, dict(base, id='i' + s[:p] + 'x' + s[p + 1:])) for p in ps]
        out += [('id cut', p, dict(base, id='i' + s[:p])) for p in ps]
    elif what == 'attrs':
        at = {'k%d' % i: 'v%d' % (i % 3) for i in range(n)}
        base['attrs'] = at
        for p in ps:
            k = 'k%d' % p
            less = {a: b for a, b in at.items() if a != k}
            for f, v in (('value', dict(at, **{k: 'o'})), ('drop', less),
                         ('key', dict(less, kz=at[k])), ('none', dict(at, **{k: None})),
                         ('more', dict(at, **{'{u:1}' + k: at[k]}))):
                out.append((f, p, dict(base, attrs=v)))
    else:
        def chain(p, f):
            d = None
            for i in reversed(range(n)):
                d = {'k': 'mc', 'name': 'n', 'kids': [d] if d else []}
                if i == p:
                    if f == 'less':
                        d['kids'] = []
                    elif f:
                        d[f] = 'z' if f != 'attrs' else {'q': '1'}
            return d
        base = chain(None, None)
        for p in ps:
            for f in ('name', 'text', 'attrs', 'ns', 'type'):
                out.append((f, p, chain(p, f)))
            if p < n - 1:
                out.append(('less', p, chain(p, 'less')))
        out.append(('more', n, dict(base, kids=base['kids'] * 2)))
    b0, b1 = build(base), build(copy.deepcopy(base))
    say = '%s with %d in %s: ' % (kind, n, what)
    cmp(b0, b1, True, lambda: say + 'equal content')
    for f, p, s in out:
        o = build(s)
        cmp(b0, o, False, lambda: say + '%s at %d' % (f, p))
        cmp(build(s), o, True, lambda: say + '%s at %d, twice' % (f, p))
        ctx.ev((kind, what, n, f, p))
    ctx.out('size %d' % n)


# --- the same content, come about in different ways

def paths(s, path=()):
    yield path
    for key in ('md', 'kids'):
        for i, c in enumerate(s.get(key) or []):
            yield from paths(c, path + ((key, i),))


def at(o, path):
    for key, i in path:
        o = list(o.metadata if key == 'md' else o)[i]
    return o


def box(o, key):
    return o.metadata if key == 'md' else o


def spare(kind):
    return build(S(kind, **({'name': 'w'} if kind == 'mc' else {'id': 'spare'})))


WAYS = ('renamed', 'renamed+refresh', 'retyped', 'text', 'attr', 'nsmap', 'inserted',
        'popped', 'replaced', 'moved', 'sorted', 'refilled', 'printed', 'looked up',
        'compared', 'unnamed')


def change(o, s, path, way):
    """Change the object in a way that leaves its content as it was.  Returns
    False if the way does not apply to the place."""
    x = at(o, path)
    d = s
    for key, i in path:
        d = d[key][i]
    kind = d['k']
    par, pkey, pos = (at(o, path[:-1]), path[-1][0], path[-1][1]) if path \
        else (None, None, None)
    if way in ('renamed', 'renamed+refresh', 'unnamed'):
        if kind == 'mc':
            return False
        x.id = 'tmp' if way != 'unnamed' else None
        if par is not None and way == 'renamed+refresh':
            box(par, pkey).refresh_index()
        x.id = d.get('id')
    elif way == 'retyped':
        if kind == 'mc':
            x.name = 'tmp'; x.name = d['name']
        else:
            x.type = 'tmp'; x.type = d.get('type')
    elif way == 'text':
        if kind not in dom.HAS_TEXT:
            return False
        x.text = 'tmp'; x.text = d.get('text')
    elif way == 'attr':
        x.attributes['tmp'] = '1'; del x.attributes['tmp']
        x.attributes = dict(reversed(list(x.attributes.items())))
    elif way == 'nsmap':
        x.nsmap = {'w': 'u:1'}
    elif way in ('inserted', 'popped', 'refilled', 'sorted'):
        if kind not in dom.CHILD:
            return False
        for key in ('kids', 'md'):
            if key == 'md' and kind not in dom.HAS_MD:
                continue
            b = box(x, key)
            ck = dom.CHILD[kind] if key == 'kids' else 'metadata'
            if way == 'inserted':
                m = spare(ck)
                b.insert(0, m); b.remove(m)
            elif way == 'popped':
                b.append(spare(ck)); b.pop()
            elif way == 'refilled':
                kids = list(b)
                b.clear()
                b.extend(kids)
            else:
                b.reverse(); b.reverse(); b.sort(key=lambda m: 0)
    elif way == 'replaced':
        if par is None:
            return False
        b = box(par, pkey)
        b[pos] = spare(kind)
        b[pos] = build(d)
    elif way == 'moved':
        if par is None:
            return False
        b = box(par, pkey)
        other = build({'k': {'item': 'tier', 'tier': 'igt', 'igt': 'corpus',
                             'metadata': 'tier', 'meta': 'metadata',
                             'mc': 'mc'}[kind], 'name': 'w', 'id': 'other'})
        ob = box(other, pkey)
        ob.append(x)
        del b[pos]
        b.insert(pos, x)
    elif way == 'printed':
        repr(x), str(x), '%s' % x
    elif way == 'looked up':
        if kind in dom.CHILD:
            len(x), list(x), x.get('zz'), x.get(0), list(x.select(type='t'))
        x.get_attribute('q', inherit=True), x.nsmap
    elif way == 'compared':
        x == build(d), x != None, x == spare(kind)     # noqa: E711
    return True


def hist(case, ctx):
    """Objects with one content reached through histories of up to two detours
    anywhere inside them are equal, and differ from other content all the same."""
    kind = case[1]
    base = bases()[kind]
    ps = list(paths(base))
    muts = [m for m in mutations(base) if m[1] in ('id', 'type', 'text', 'q', 'drop',
                                                   'name', 'more')]
    others = []
    for m in muts:
        s = apply(base, (m,))
        if content(s) != content(base):
            others.append((s, build(s)))
    one = list(itertools.product(ps, WAYS))
    for p, w in one:
        a, b = build(base), build(base)
        if not change(a, base, p, w):
            continue
        what = lambda: '%s: content reached through %s at %r' % (kind, w, p)
        cmp(a, b, True, what)
        for s, o in others:
            cmp(a, o, False, lambda: what() + ' against %r' % (s,))
        ctx.ev((kind, p, w))
        # ... and a second detour, on either side
        for p2, w2 in one:
            if (p2 != p and len(p2) + len(p) > 2) or w2 == 'printed':
                continue
            c = build(base)
            change(c, base, p, w)
            if not change(c, base, p2, w2):
                continue
            cmp(c, a, True, lambda: what() + ', then %s at %r' % (w2, p2))
            cmp(c, b, True, lambda: what() + ', then %s at %r' % (w2, p2))
            ctx.ev((kind, p, w, p2, w2))
    # what is reached later is compared as it is then: changes after comparing
    for m in muts:
        s = apply(base, (m,))
        if s is None:
            continue
        a, b = build(base), build(base)
        cmp(a, b, True, lambda: 'before')
        x, d = at(a, m[0]), base
        for key, i in m[0]:
            d = d[key][i]
        n = copy.deepcopy(d)
        m[2](n)
        if content(n) == content(d):
            continue
        if m[1] == 'id':
            x.id = n['id']
        elif m[1] == 'type':
            x.type = n['type']
        elif m[1] == 'text':
            x.text = n['text']
        elif m[1] == 'name':
            x.name = n['name']
        elif m[1] == 'q':
            x.attributes['q'] = '2'
        elif m[1] == 'drop':
            x.pop()
        elif m[1] == 'more':
            x.append(build(n['kids'][-1]))
        cmp(a, b, False, lambda: '%s: %s at %r changed after comparing' % (
            kind, m[1], m[0]))
        cmp(a, build(s), True, lambda: '%s: %s at %r changed after comparing, against '
            'the same built anew' % (kind, m[1], m[0]))
        ctx.ev((kind, 'later', m[0], m[1]))
