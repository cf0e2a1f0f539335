"""C05: attribute, namespace and metadata lookup along the parent chain."""
import itertools
from mc.core import Violation
from mc import dom, sizes
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild

ID = 'C05'
LEVEL = 'exploration'
RULE = ('every placement of three attribute keys (plain and in two namespaces) and of '
        'prefix maps over every chain of 3 nested objects (and of 4-5 with a reduced '
        'alphabet), x every way of asking (plain key, {uri}key, prefix:key, '
        'namespace=prefix, namespace=uri; inherit on and off; default), asked from '
        'every object of the chain, against a direct walk over the description; '
        'likewise every placement of metadata for get_meta; chains, attributes, prefixes and '
        'metadata of a ladder of sizes (to 257, thorough 400); and both again on '
        'containers that have no members (named as parent in the constructor, '
        'transient and incremental corpora)')
ASSUMPTIONS = ['prefixes are resolved with the prefix map in force at the object '
               'that is asked', 'undeclared prefixes are outside the domain']

U1, U2 = 'u:1', 'u:2'
KEYS = ['k', '{u:1}k', '{u:2}k']
NSMAPS = [None, {}, {'p': U1}, {'p': U2, 'q': U1}, {'': U2, 'p': U1}]
LEVELS = ['corpus', 'igt', 'tier']
CHAINS = {
    'i': ['item'], 'm': ['meta'], 'ti': ['tier', 'item'],
    'cig': ['corpus', 'igt', 'tier'],
    'iti': ['igt', 'tier', 'item'],
    'tmm': ['tier', 'metadata', 'meta'],
    'cmm': ['corpus', 'metadata', 'meta'],
    'imm': ['igt', 'metadata', 'meta'],
    'mmc': ['metadata', 'meta', 'mc'],
    'mcc': ['meta', 'mc', 'mc'],
    'full': ['corpus', 'igt', 'tier', 'item'],
    'deep': ['corpus', 'igt', 'tier', 'metadata', 'meta', 'mc'],
}


def cases(tier):
    yield ['colons']
    for n in sizes.SIZES + ((300, 400) if tier == 'thorough' else ()):
        for p in sizes.positions(n) if n > 20 else [None]:
            yield ['size', n, p]
    for name, chain in CHAINS.items():
        n = len(chain)
        maps = list(range(len(NSMAPS)))
        if n > 3:
            maps = [0, 2, 3, 4] if tier == 'thorough' and n == 4 else [0, 2, 4]
        for ns in itertools.product(maps, repeat=n):
            yield ['attr', name, list(ns)]
    for owner in ('corpus', 'igt', 'tier'):
        for a in range(len(METAS)):
            for root in ('corpus', 'igt', 'tier'):
                if LEVELS.index(root) <= LEVELS.index(owner):
                    yield ['meta', owner, a, root]
    for own in itertools.product(range(3), repeat=4):
        yield ['nsmap', list(own)]
    for how in HOWS:
        for ns in itertools.product(range(3), repeat=4):
            yield ['bare', how, list(ns)]
        for how2 in ('corpus', 'igt', 'tier'):
            yield ['baremeta', how, how2]


def colons(ctx):
    """Names whose local part has colons or braces of its own."""
    for loc, level, inherit in itertools.product(('a:b', 'p:b', ':a', 'a:', '::', 'a}b', 'q:p'),
                                                 (0, 1), (False, True)):
        objs = make_chain(['tier', 'item'], [{'p': U1, 'q': U2}, None], [{}, {}])
        objs[level].attributes['{%s}%s' % (U1, loc)] = 'v'
        for key, ns in (('p:' + loc, None), ('{%s}%s' % (U1, loc), None)) + (
                (('' + loc, U1), (loc, 'p')) if ':' not in loc else ()):
            got = objs[1].get_attribute(key, 'DEF', inherit=inherit, namespace=ns)
            want = 'v' if level == 1 or inherit else 'DEF'
            if got != want:
                raise Violation('get_attribute(%r, namespace=%r, inherit=%r) = %r, expected %r' % (
                    key, ns, inherit, got, want))
            ctx.ev(('colon', key, ns, level, inherit))
        ctx.out('colons')


def make_chain(kinds, nsmaps, attrs):
    s = None
    for i in reversed(range(len(kinds))):
        d = {'k': kinds[i], 'attrs': attrs[i], 'nsmap': nsmaps[i]}
        if kinds[i] == 'mc':
            d['name'] = 'n%d' % i
        else:
            d['id'] = 'o%d' % i
        if s is not None:
            if s['k'] == 'metadata':
                d['md'] = [s]
            else:
                d['kids'] = [s]
        s = d
    o = dom.build(s)
    objs = [o]
    for i in range(1, len(kinds)):
        objs.append(objs[-1].metadata[0] if kinds[i] == 'metadata' else objs[-1][0])
    return objs


def subsets_of_keys(n, reduced):
    opts = [()] + [c for k in (1, 2, 3) for c in itertools.combinations(KEYS, k)]
    if reduced:
        opts = [(), ('k',), ('{u:1}k',), tuple(KEYS)]
    return itertools.product(opts, repeat=n)


def run(case, ctx):
    if case[0] == 'size':
        return size(case[1], case[2], ctx)
    if case[0] == 'meta':
        return metas(case, ctx)
    if case[0] == 'colons':
        return colons(ctx)
    if case[0] == 'nsmap':
        return nsmap_live(case, ctx)
    if case[0] in ('bare', 'baremeta'):
        return bare(case, ctx)
    _, name, ns = case
    kinds = CHAINS[name]
    n = len(kinds)
    nsmaps = [NSMAPS[i] for i in ns]
    eff = []
    for i in range(n):
        eff.append(nsmaps[i] if nsmaps[i] is not None else (eff[-1] if eff else {}))
    objs = make_chain(kinds, nsmaps, [{} for _ in kinds])
    for i in range(n):
        if objs[i].nsmap != eff[i]:
            raise Violation('%s nsmaps %r: nsmap of level %d is %r, expected %r'
                            % (name, nsmaps, i, objs[i].nsmap, eff[i]))
    queries = [('k', None, 'k'), ('{u:1}k', None, '{u:1}k'), ('{u:2}k', None, '{u:2}k'),
               ('k', U1, '{u:1}k'), ('k', U2, '{u:2}k'), ('zz', None, 'zz'),
               ('k', 'u:3', '{u:3}k')]
    for placed in subsets_of_keys(n, n > 3):
        if n > 4 and sum(map(bool, placed)) > 2:
            continue
        for i in range(n):
            objs[i].attributes.clear()
            objs[i].attributes.update({k: '%s@%d' % (k, i) for k in placed[i]})
        for i in range(n):
            qs = list(queries)
            if '' not in eff[i]:
                qs.append(('k', '', 'k'))
            for pre, uri in eff[i].items():
                if pre:
                    qs.append((pre + ':k', None, '{%s}k' % uri))
                qs.append(('k', pre, '{%s}k' % uri))
            for key, nspace, full in qs:
                for inherit in (False, True):
                    want = 'DEF'
                    for j in range(i, -1, -1):
                        if full in placed[j]:
                            want = '%s@%d' % (full, j)
                            break
                        if not inherit:
                            break
                    got = objs[i].get_attribute(key, default='DEF', inherit=inherit,
                                                namespace=nspace)
                    if got != want:
                        raise Violation(
                            '%s nsmaps=%r attributes=%r: level %d '
                            'get_attribute(%r, namespace=%r, inherit=%r) = %r, '
                            'expected %r' % (name, nsmaps, placed, i, key, nspace,
                                             inherit, got, want))
                    ctx.evaluations += 1
                    if got == 'DEF':
                        g2 = objs[i].get_attribute(key, inherit=inherit,
                                                   namespace=nspace)
                        if g2 is not None:
                            raise Violation('default without default= is %r' % (g2,))
        ctx.distinct.add(hash((name, tuple(ns), placed)) & 0xffffffffffffffff)
    ctx.out('%s' % name)
    ctx.sample([name, nsmaps, placed])


# (metadata type, [(meta type, text)])
METAS = [
    [],
    [('xigt-meta', [('k', '1')])],
    [('xigt-meta', [('j', '1')])],
    [('other', [('k', '1')])],
    [(None, [('k', '1')])],
    [('xigt-meta', [('k', '1'), ('j', '2'), ('k', '3')])],
    [('xigt-meta', [('k', '1')]), ('xigt-meta', [('k', '2')])],
    [('other', [('k', '1')]), ('xigt-meta', [('k', '2')])],
    [('xigt-meta', [('j', '1')]), ('xigt-meta', [('k', '2'), ('k', '1')])],
]


def metas(case, ctx):
    """get_meta from an owner, with every metadata placement on its ancestors."""
    _, owner, a, root = case
    levels = LEVELS[LEVELS.index(root):LEVELS.index(owner) + 1]
    others = itertools.product(range(len(METAS)), repeat=len(levels) - 1)
    for rest in others:
        conf = list(rest) + [a]
        s = None
        for lvl, c in reversed(list(zip(levels, conf))):
            d = {'k': lvl, 'id': lvl,
                 'md': [{'k': 'metadata', 'type': t, 'kids': [
                     {'k': 'meta', 'type': mt, 'text': '%s-%s' % (lvl, tx)}
                     for mt, tx in ms]} for t, ms in METAS[c]]}
            if s is not None:
                d['kids'] = [s]
            s = d
        o = dom.build(s)
        objs = [o]
        for _ in levels[1:]:
            objs.append(objs[-1][0])
        for lo in range(len(levels)):
            for key in ('k', 'j', 'zz'):
                for cname, conds in (('none', None), ('empty', []),
                                     ('2', [lambda m: m.text.endswith('2')]),
                                     ('2&3', [lambda m: m.text.endswith('2'),
                                              lambda m: m.text.endswith('3')])):
                    for inherit in (None, True, False):
                        want = 'DEF'
                        for j in range(lo, -1, -1):
                            hit = []
                            for t, ms in METAS[conf[j]]:
                                if t != 'xigt-meta':
                                    continue
                                for mt, tx in ms:
                                    if mt == key and (
                                            cname in ('none', 'empty') or
                                            cname == '2' and tx == '2'):
                                        hit.append('%s-%s' % (levels[j], tx))
                            if hit:
                                want = hit
                                break
                            if inherit is False:
                                break
                        kw = {} if inherit is None else {'inherit': inherit}
                        got = objs[lo].get_meta(key, conditions=conds,
                                                default='DEF', **kw)
                        if got != 'DEF':
                            got = [m.text for m in got]
                        if got != want:
                            raise Violation(
                                'get_meta(%r, conditions=%s, inherit=%r) at %s with '
                                'metadata %r: %r, expected %r' % (
                                    key, cname, inherit, levels[lo],
                                    [METAS[c] for c in conf], got, want))
                        ctx.ev((owner, tuple(conf), lo, key, cname, inherit))
                        ctx.out('meta default' if want == 'DEF' else 'meta found')


def nsmap_live(case, ctx):
    """Prefix maps are inherited live, never copied down, and a given map is not
    shared with the caller."""
    _, own = case
    opts = [None, {'p': U1}, {'p': U2, 'q': U1}]
    kinds = ['corpus', 'igt', 'tier', 'item']
    given = [opts[i] and dict(opts[i]) for i in own]
    objs = make_chain(kinds, given, [{'{u:1}k': str(i)} for i in range(4)])
    def eff(i):
        for j in range(i, -1, -1):
            if cur[j] is not None:
                return cur[j]
        return {}
    cur = [opts[i] and dict(opts[i]) for i in own]
    for step in ([None] + [(lvl, o) for lvl in range(4) for o in range(3)]):
        if step is not None:
            lvl, o = step
            objs[lvl].nsmap = opts[o]
            cur[lvl] = opts[o]
        for i in range(4):
            if objs[i].nsmap != eff(i):
                raise Violation('prefix maps %r after setting %r: level %d has %r'
                                % (own, step, i, objs[i].nsmap))
            for pre, uri in eff(i).items():
                if uri == U1 and objs[i].get_attribute(pre + ':k') != str(i):
                    raise Violation('prefix maps %r after %r: level %d cannot find '
                                    '%s:k' % (own, step, i, pre))
        ctx.ev(('nsmap', tuple(own), step))
    src = {'p': U1}
    t = Tier(nsmap=src)
    src['p'] = U2
    if t.nsmap != {'p': U1}:
        raise Violation('the prefix map given by the caller is shared, not copied')
    src = {'k': '1'}
    t = Tier(attributes=src)
    src['k'] = '2'
    t.attributes['z'] = '1'
    if t.attributes != {'k': '1', 'z': '1'} or src != {'k': '2'}:
        raise Violation('the attributes given by the caller are shared, not copied')


def size(n, only, ctx):
    """Long chains of nested objects, many attributes, prefixes and metadata."""
    ps = sizes.positions(n)
    kinds = ['meta'] + ['mc'] * (n - 1)
    for p in ps if only is None else [only]:
        for p2 in (None, p // 2):
            for mp in {0, p // 2, max(0, p - 1)}:
                attrs = [{} for _ in kinds]
                maps = [None] * n
                maps[mp] = {'p': U1}
                attrs[p] = {'k': 'far', '{u:1}k': 'ns'}
                if p2 is not None and p2 != p:
                    attrs[p2] = {'k': 'up', '{u:1}k': 'ns-up'}
                objs = make_chain(kinds, maps, attrs)
                for q in ps:
                    at = p if q >= p else p2 if p2 is not None and q >= p2 else None
                    near = {'k': None, '{u:1}k': None} if at is None else attrs[at]
                    own = attrs[q]
                    for key, ns, full in (('k', None, 'k'), ('{u:1}k', None, '{u:1}k'),
                                          ('k', U1, '{u:1}k')) + (
                            (('p:k', None, '{u:1}k'),) if q >= mp else ()):
                        got = (objs[q].get_attribute(key, inherit=True, namespace=ns),
                               objs[q].get_attribute(key, namespace=ns))
                        if got != (near[full], own.get(full)):
                            raise Violation(
                                'chain of %d: attribute at %r, asked %r at %d: %r, '
                                'expected %r' % (n, (p, p2), key, q, got,
                                                 (near[full], own.get(full))))
                    if objs[q].nsmap != ({'p': U1} if q >= mp else {}):
                        raise Violation('chain of %d: prefix map at %d, asked at %d: %r'
                                        % (n, mp, q, objs[q].nsmap))
                ctx.ev(('chain', n, p, p2, mp))
    if only:        # done once
        return
    # many attributes and prefixes, on the object and above it
    m = {'p%d' % i: 'u:%d' % i for i in range(n)}
    at = {'k%d' % i: 'a%d' % i for i in range(n)}
    at.update({'{u:%d}k' % i: 'n%d' % i for i in range(n)})
    g, t, x = make_chain(['igt', 'tier', 'item'], [m, None, None], [at, {}, {}])
    for o in (g, t, x):
        for i in range(n):
            for key, ns, want in (('k%d' % i, None, 'a%d' % i),
                                  ('p%d:k' % i, None, 'n%d' % i),
                                  ('k', 'p%d' % i, 'n%d' % i),
                                  ('k', 'u:%d' % i, 'n%d' % i)):
                got = o.get_attribute(key, inherit=True, namespace=ns)
                if got != want:
                    raise Violation('%d attributes: %r (namespace %r) is %r' % (n, key, ns, got))
        ctx.ev(('many', n, type(o).__name__))
    # many metadata with many metas
    for p in ps:
        def md(level):
            return [{'k': 'metadata', 'type': 'xigt-meta' if i != p else 'other', 'kids': [
                {'k': 'meta', 'type': 'k' if i >= p else 'j', 'text': '%s%d.%d' % (level, i, j)}
                for j in range(2)]} for i in range(n)]
        c = dom.build({'k': 'corpus', 'md': md('c'), 'kids': [
            {'k': 'igt', 'id': 'i', 'md': md('g')[:p + 1]}]})
        k = ['%d.%d' % (i, j) for i in range(p + 1, n) for j in range(2)]
        j = ['%d.%d' % (i, j) for i in range(p) for j in range(2)]
        for o, key, want in ((c, 'k', ['c' + x for x in k]), (c, 'j', ['c' + x for x in j]),
                             (c[0], 'k', ['c' + x for x in k]),
                             (c[0], 'j', ['g' + x for x in j] or [])):
            got = [m.text for m in o.get_meta(key, default=[])]
            if got != want:
                raise Violation('%d metadata, split at %d: get_meta(%r) of %r: %r, expected %r'
                                % (n, p, key, o, got, want))
            got = o.get_meta(key, conditions=[lambda m: m.text[-1] == '1'] * (p + 1),
                             default=[])
            if [m.text for m in got] != [x for x in want if x[-1] == '1']:
                raise Violation('%d metadata, split at %d: get_meta(%r) with conditions'
                                % (n, p, key))
        one = dom.build({'k': 'tier', 'md': [{'k': 'metadata', 'type': 'xigt-meta', 'kids': [
            {'k': 'meta', 'type': 'k' if i != p else 'j', 'text': str(i)} for i in range(n)]}]})
        if [m.text for m in one.get_meta('k', default=[])] != [str(i) for i in range(n) if i != p] \
                or [m.text for m in one.get_meta('j')] != [str(p)]:
            raise Violation('%d metas, get_meta is wrong about number %d' % (n, p))
        ctx.ev(('metas', n, p))
    ctx.out('size')


# --- containers that look empty: nothing is in them although they are above
# (a transient corpus, a parent that was only named in the constructor)

HOWS = ['ctor', 'transient', 'incremental', 'emptied']
MDX = [None, ['1'], ['2', '3']]


def bare_chain(how, nsmaps, attrs, mds):
    """corpus, igt, tier, item, with the upward links but no members where the
    way of assembling allows it."""
    def md(i):
        return [Metadata(type='xigt-meta', metas=[
            Meta(type='k', text=t) for t in mds[i]])] if mds[i] else None
    kw = [dict(id='o%d' % i, attributes=attrs[i], nsmap=nsmaps[i])
          for i in range(4)]
    if how in ('ctor', 'emptied'):
        c = XigtCorpus(metadata=md(0), **kw[0])
        if how == 'ctor':
            g = Igt(corpus=c, metadata=md(1), **kw[1])
            t = Tier(igt=g, metadata=md(2), **kw[2])
            return [c, g, t, Item(tier=t, **kw[3])]
        g = Igt(metadata=md(1), **kw[1])
        t = Tier(metadata=md(2), **kw[2])
        i = Item(**kw[3])
        c.append(g); g.append(t); t.append(i)
        # a member that stands before it and is taken out again
        for p, m in ((c, Igt('x1')), (g, Tier('x1')), (t, Item('x1'))):
            p.insert(0, m)
            p.remove(m)
        return [c, g, t, i]
    import io
    from xigt.codecs import xigtxml
    c = XigtCorpus(metadata=md(0), **kw[0])
    c.append(Igt(metadata=md(1), **kw[1]))
    c[0].append(Tier(metadata=md(2), **kw[2]))
    c[0][0].append(Item(**kw[3]))
    c = xigtxml.load(io.StringIO(xigtxml.dumps(c)), mode=how)
    g = next(iter(c))
    return [c, g, g[0], g[0][0]]


def bare(case, ctx):
    mode, how = case[:2]
    if mode == 'bare':
        opts = [None, {'p': U1}, {'p': U2, 'q': U1}]
        ns = [opts[i] for i in case[2]]
        eff = []
        for m in ns:
            eff.append(m if m is not None else (eff[-1] if eff else {}))
        if how in ('transient', 'incremental'):
            # what the file declares: a prefix for each namespace that is used
            ns = [{'p': U1, 'q': U2}] + [None] * 3
            eff = ns[:1] * 4
            if case[2][0] or case[2][1] or case[2][2]:
                return
        for placed in itertools.product((0, 1, 2, 3), repeat=4):
            attrs = [{k: '%s@%d' % (k, i) for b, k in ((1, 'k'), (2, '{u:1}k'))
                      if w & b} for i, w in enumerate(placed)]
            if how in ('transient', 'incremental') and sum(map(bool, placed)) > 2:
                continue
            objs = bare_chain(how, ns, attrs, [None] * 4)
            for i, o in enumerate(objs):
                if how not in ('transient', 'incremental') and o.nsmap != eff[i]:
                    raise Violation('%s: level %d has prefix map %r, expected %r'
                                    % (case, i, o.nsmap, eff[i]))
                qs = [('k', None, 'k'), ('{u:1}k', None, '{u:1}k'),
                      ('k', U1, '{u:1}k')]
                qs += [(pre + ':k', None, '{%s}k' % u) for pre, u in eff[i].items()]
                for key, nspace, full in qs:
                    for inherit in (False, True):
                        want = 'DEF'
                        for j in range(i, -1 if inherit else i - 1, -1):
                            if full in attrs[j]:
                                want = attrs[j][full]
                                break
                        got = o.get_attribute(key, 'DEF', inherit=inherit,
                                              namespace=nspace)
                        if got != want:
                            raise Violation(
                                '%s, attributes %r: level %d get_attribute(%r, '
                                'namespace=%r, inherit=%r) = %r, expected %r' % (
                                    case, attrs, i, key, nspace, inherit, got, want))
            ctx.ev((how, tuple(case[2]), placed))
        ctx.out('bare ' + how)
        return
    lvl = LEVELS.index(case[2])
    for conf in itertools.product(MDX, repeat=3):
        objs = bare_chain(how, [None] * 4, [{}] * 4, list(conf))
        for conds, cname in ((None, ''), ([lambda m: m.text == '3'], '3')):
            for inherit in (None, True, False):
                want = 'DEF'
                for j in range(lvl, -1, -1):
                    hit = [t for t in conf[j] or [] if not cname or t == cname]
                    if hit:
                        want = hit
                        break
                    if inherit is False:
                        break
                got = objs[lvl].get_meta('k', conditions=conds, default='DEF',
                                         **({} if inherit is None else
                                            {'inherit': inherit}))
                if got != 'DEF':
                    got = [m.text for m in got]
                if got != want:
                    raise Violation('%s: get_meta at %s, condition %r, inherit=%r, '
                                    'metadata %r: %r, expected %r' % (
                                        how, case[2], cname, inherit, conf, got, want))
                ctx.ev((how, case[2], tuple(map(str, conf)), cname, inherit))
    # metadata named as the parent
    if how == 'ctor' and lvl == 0:
        md = Metadata(attributes={'k': '1'}, nsmap={'p': U1})
        me = Meta(metadata=md)
        mc = MetaChild('n', parent=me)
        m2 = MetaChild('n', parent=mc)
        for o in (me, mc, m2):
            if o.get_attribute('k', inherit=True) != '1' or o.nsmap != {'p': U1}:
                raise Violation('%r does not inherit from the parent named in the '
                                'constructor' % o)
            ctx.ev(('named', o.__class__.__name__))
    ctx.out('bare meta ' + how)
