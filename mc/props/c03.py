"""C03: parent links and upward navigation however a corpus was assembled."""
import itertools
from mc.core import Violation
from mc import dom, sizes
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.codecs import xigtxml, xigtjson

ID = 'C03'
LEVEL = 'exploration'
RULE = ('all ways of linking the levels of a hierarchy: for every level one of the '
        'attaching operations (constructor argument, append, insert, extend, '
        'index assignment, +=, content property, list / generator, deprecated '
        'aliases, re-attachment after removal) x every order in which the levels '
        'are linked; afterwards every upward link of every object is compared with '
        'the hierarchy built; and all sequences of attaching and detaching '
        '(append, insert, index assignment, remove, pop, clear, assignment of an '
        'empty content) over two objects per level, to depth 3 (thorough 4), with '
        'all navigation done and compared after every step; and every single operation '
        'at every (boundary) position of containers of a ladder of sizes up to 1001 '
        'members (thorough 1025); distinct = distinct '
        '(methods, order) or operation sequence')
ASSUMPTIONS = ['one member of interest per level plus siblings']

METHODS = ['ctor', 'append', 'insert', 'extend', 'extendgen', 'set', 'iadd', 'prop',
           'propgen', 'add', 'addlist', 'moved', 'swapped', 'twin', 'twinset', 'ctorgen']
PROP = {XigtCorpus: 'igts', Igt: 'tiers', Tier: 'items', Metadata: 'metas',
        Meta: 'children', MetaChild: 'children'}
ARG = dict(PROP)


def mk(cls, id, **kw):
    if cls is MetaChild:
        return MetaChild(id, **kw)
    return cls(id=id, **kw)


CHAINS = {
    'main': [XigtCorpus, Igt, Tier, Item],
    'md': [Metadata, Meta, MetaChild, MetaChild],
}


def cases(tier):
    for chain in CHAINS:
        for m in itertools.product(METHODS, repeat=3):
            yield [chain, list(m)]
    for owner in ('corpus', 'igt', 'tier'):
        for m in itertools.product(MDMETHODS, METHODS[:8]):
            yield ['owner', owner, list(m)]
    yield ['load']
    for kind, n in sizes.sizes(tier):
        yield ['size', kind, n]
    for chain in HCHAINS:
        for init in ('empty', 'built', 'first'):
            ops = hist_ops('quick')
            for a in ops:
                yield ['hist', chain, init, 'quick', a, 3]
            if tier == 'thorough':
                ops = hist_ops('deep')
                for a in ops:
                    for b in ops:
                        yield ['hist', chain, init, 'deep', a, 4, b]


MDMETHODS = ['ctor', 'prop', 'propgen', 'append', 'insert', 'extend', 'set', 'iadd',
             'replace', 'again', 'twin', 'twinset']


def attach(parent, child, method, cls, ccls, n):
    """Put child into parent by the method; returns position of the child."""
    sib = lambda i: mk(ccls, 's%d%s' % (i, n))
    if method == 'append':
        parent.append(sib(0)); parent.append(child)
    elif method == 'insert':
        parent.append(sib(0)); parent.insert(0, child)
    elif method == 'extend':
        parent.extend([sib(0), child, sib(1)])
    elif method == 'extendgen':
        parent.extend(x for x in [child, sib(1)])
    elif method == 'set':
        parent.append(sib(0)); parent.append(sib(1)); parent[1] = child
    elif method == 'iadd':
        parent += [child, sib(1)]
    elif method == 'prop':
        setattr(parent, PROP[cls], [sib(0), child])
    elif method == 'propgen':
        setattr(parent, PROP[cls], (x for x in [sib(0), child]))
    elif method == 'twin':
        # one that is equal is there already
        setattr(parent, PROP[cls], [dom.build(dom.snap(child))])
        setattr(parent, PROP[cls], [child])
    elif method == 'twinset':
        parent.append(dom.build(dom.snap(child)))
        parent[0] = child
    elif method == 'add':
        parent.add(child)
    elif method == 'addlist':
        parent.add_list([child, sib(0)])
    elif method == 'moved':
        p2 = mk(cls, 'elsewhere')
        p2.append(sib(2)); p2.append(child)
        del p2[1]
        parent.append(child)
    elif method == 'swapped':
        # a child displaced from one parent and put into another one
        p2 = mk(cls, 'elsewhere')
        p2.append(child)
        p2[0] = sib(3)
        parent.append(sib(4))
        parent[0] = child
        parent.sort(key=lambda o: 0)
        parent.reverse()


def linked(objs, classes, methods, order):
    """Link consecutive levels in the given order.  Constructor methods build
    the parent when they are reached, so they are only usable when the parent
    is not linked yet; the parent is then created with the child in it."""
    made = list(objs)
    for lvl in order:
        cls, ccls = classes[lvl], classes[lvl + 1]
        if made[lvl + 1] is None:
            made[lvl + 1] = mk(ccls, 'o%d' % (lvl + 1))
        child = made[lvl + 1]
        m = methods[lvl]
        if m in ('ctor', 'ctorgen') and made[lvl] is None:
            kids = [mk(ccls, 's0x%d' % lvl), child]
            made[lvl] = mk(cls, 'o%d' % lvl,
                           **{ARG[cls]: kids if m == 'ctor' else (k for k in kids)})
        else:
            if made[lvl] is None:
                made[lvl] = mk(cls, 'o%d' % lvl)
            attach(made[lvl], child, 'append' if m.startswith('ctor') else m,
                   cls, ccls, lvl)
    return made


def check_main(made, what):
    corpus, igt, tier, item = made
    exp = [('igt.corpus', igt.corpus, corpus), ('tier.igt', tier.igt, igt),
           ('tier.corpus', tier.corpus, corpus), ('item.tier', item.tier, tier),
           ('item.igt', item.igt, igt), ('item.corpus', item.corpus, corpus)]
    for name, got, want in exp:
        if got is not want:
            raise Violation('%s: %s is %r, expected %r' % (what, name, got, want))
    for p, c in ((corpus, igt), (igt, tier), (tier, item)):
        if not any(x is c for x in list(p)):
            raise Violation('%s: %r is not in %r' % (what, c, p))


def inherits_from(o, p):
    """o inherits an attribute of exactly p (observable parent link)."""
    p.attributes['probe'] = 'yes'
    r = o.get_attribute('probe', inherit=True)
    del p.attributes['probe']
    return r == 'yes'


def check_links(root, what):
    """Every object below root inherits from its container and from it only."""
    def kids(o):
        for m in (list(o.metadata) if hasattr(o, 'metadata') else []):
            yield m
        if not isinstance(o, Item):
            yield from list(o)
    def rec(o, path):
        for c in kids(o):
            anc = path + [o]
            for a in anc:
                if not inherits_from(c, a):
                    raise Violation('%s: %r does not lead up to its container %r'
                                    % (what, c, a))
            if isinstance(c, Item) and (c.tier is not o):
                raise Violation('%s: item.tier wrong' % what)
            if isinstance(c, Tier) and (c.igt is not o):
                raise Violation('%s: tier.igt wrong' % what)
            if isinstance(c, Igt) and (c.corpus is not o):
                raise Violation('%s: igt.corpus wrong' % what)
            rec(c, anc)
    rec(root, [])


def run(case, ctx):
    if case[0] == 'size':
        return sizes.explore(case[1], case[2], ctx, 'links')
    if case[0] == 'load':
        return loaded(ctx)
    if case[0] == 'hist':
        return hist(case, ctx)
    if case[0] == 'owner':
        return owners(case, ctx)
    chain, methods = case
    classes = CHAINS[chain]
    for order in itertools.permutations(range(3)):
        made = linked([None] * 4, classes, methods, order)
        what = '%s methods=%r order=%r' % (chain, methods, order)
        if chain == 'main':
            check_main(made, what)
        check_links(made[0], what)
        ctx.ev((chain, methods, order))
        ctx.sample(what)
        ctx.out('first linked level %d' % order[0])
    # constructor argument naming the parent
    if methods == ['ctor', 'ctor', 'ctor'] and chain == 'main':
        c = XigtCorpus(); i = Igt(corpus=c); t = Tier(igt=i); it = Item(tier=t)
        if (it.tier, it.igt, it.corpus) != (t, i, c) or it.tier is not t \
                or t.igt is not i or i.corpus is not c:
            raise Violation('parent constructor arguments are ignored')
        if Item().tier is not None or Item().igt is not None or \
                Item().corpus is not None or Tier().corpus is not None or \
                Tier().igt is not None or Igt().corpus is not None or \
                Item(tier=Tier()).igt is not None or \
                Item(tier=Tier()).corpus is not None:
            raise Violation('an unattached object must have no container')


def owners(case, ctx):
    """Metadata attached to corpus, igt or tier."""
    _, ok, (m1, m2) = case
    cls = {'corpus': XigtCorpus, 'igt': Igt, 'tier': Tier}[ok]
    for order in (0, 1):
        md = Metadata(id='md')
        meta = Meta(id='mt', children=[MetaChild('k')])
        sib = Metadata(id='sib')
        if order == 0:
            if m2 == 'ctor':
                md = Metadata(id='md', metas=[meta])
            else:
                attach(md, meta, m2, Metadata, Meta, 0)
        if m1 == 'ctor':
            o = cls(id='o', metadata=[sib, md])
        else:
            o = cls(id='o')
            if m1 == 'prop':
                o.metadata = [sib, md]
            elif m1 == 'propgen':
                o.metadata = (x for x in [md])
            elif m1 == 'append':
                o.metadata.append(md)
            elif m1 == 'insert':
                o.metadata.append(sib); o.metadata.insert(0, md)
            elif m1 == 'extend':
                o.metadata.extend([md, sib])
            elif m1 == 'set':
                o.metadata.append(sib); o.metadata[0] = md
            elif m1 == 'iadd':
                c = o.metadata
                c += [sib, md]
            elif m1 == 'replace':
                o.metadata = [Metadata(id='md')]
                o.metadata = [md, sib]
            elif m1 in ('twin', 'twinset'):
                o.metadata = [dom.build(dom.snap(md))]
                if m1 == 'twin':
                    o.metadata = [md]
                else:
                    o.metadata[0] = md
            elif m1 == 'again':
                o.metadata = [md, sib]
                o.metadata = o.metadata
                o.metadata = list(o.metadata)[::-1]
        if order == 1:
            if m2 == 'ctor':
                md.metas = [meta]
            else:
                attach(md, meta, m2, Metadata, Meta, 0)
        what = 'metadata of %s via %s, meta via %s, order %d' % (ok, m1, m2, order)
        if not any(x is md for x in list(o.metadata)):
            raise Violation(what + ': not attached')
        check_links(o, what)
        ctx.ev((ok, m1, m2, order))


def loaded(ctx):
    """Objects that come out of both codecs, in every loading mode."""
    md = dom.metadata(dom.meta(dom.mc('k', dom.mc('j', text='x')), type='t'),
                      type='xigt-meta')
    g = dom.full_igt('i1'); g['md'] = [md]
    g['kids'][0]['md'] = [md]
    spec = dom.corpus(g, dom.igt('i2', dom.tier('t', dom.item('t1', 'x'))), md=[md])
    for codec in (xigtxml, xigtjson):
        text = codec.dumps(dom.build(spec))
        xc = codec.loads(text)
        check_links(xc, codec.__name__)
        ctx.ev(codec.__name__)
        for mode in ('full', 'incremental', 'transient'):
            import io
            xc = codec.load(io.StringIO(text), mode=mode)
            n = 0
            for g in xc:
                n += 1
                if g.corpus is not xc:
                    raise Violation('%s %s: igt.corpus' % (codec.__name__, mode))
                check_links(g, '%s %s' % (codec.__name__, mode))
                for t in g:
                    for i in t:
                        if i.corpus is not xc:
                            raise Violation('%s %s: item.corpus' % (codec.__name__, mode))
            if n != 2:
                raise Violation('%s %s: %d igts' % (codec.__name__, mode, n))
            ctx.ev((codec.__name__, mode))


# --- histories: every sequence of attaching and detaching, navigation after
# every step (so whatever is remembered by a lookup is there when things move)

HCHAINS = {
    'main': [XigtCorpus, Igt, Tier, Item],
    'md': [Igt, Metadata, Meta, MetaChild],
}
ATT = {'quick': ('append', 'insert', 'set'), 'deep': ('append', 'set')}
DET = {'quick': ('remove', 'pop', 'clear', 'assign'), 'deep': ('remove', 'clear')}


def hist_ops(depth):
    out = []
    for lvl in range(3):
        for p in (0, 1):
            for c in (0, 1):
                for m in ATT[depth]:
                    out.append([m, lvl, p, c])
            for m in DET[depth]:
                out.append([m, lvl, p, 0])
    return out


class World(object):
    def __init__(self, chain, init):
        self.chain = chain
        classes = HCHAINS[chain]
        self.o = [[mk(cls, 'l%d%s' % (l, 'ab'[k])) for k in (0, 1)]
                  for l, cls in enumerate(classes)]
        for l in range(4):
            for k in (0, 1):
                self.o[l][k].attributes = {'lvl%d' % l: str(k)}
        self.held = [[[], []] for _ in range(3)]   # members of parent k at level l
        self.last = [[None, None] for _ in range(4)]
        if init == 'built':
            for l in range(3):
                for k in (0, 1):
                    self.step(['append', l, k, k])
        elif init == 'first':
            for l in range(3):
                for k in (0, 1):
                    self.step(['append', l, 0, k])

    def box(self, l, k):
        o = self.o[l][k]
        if self.chain == 'md' and l == 0:
            return o.metadata
        return o

    def step(self, op):
        """Returns False for an operation that the present state excludes."""
        m, l, p, c = op
        box, held = self.box(l, p), self.held[l][p]
        if m in ('append', 'insert', 'set'):
            x = self.o[l + 1][c]
            named = not isinstance(x, MetaChild)
            if m == 'set':
                if not held or (named and c in held and held[0] != c):
                    return False
                box[0] = x
                held[0] = c
            else:
                if c in held and named:
                    return False
                if m == 'append':
                    box.append(x); held.append(c)
                else:
                    box.insert(0, x); held.insert(0, c)
            self.last[l + 1][c] = p
        else:
            if not held:
                return False
            if m == 'remove':
                box.remove(self.o[l + 1][held[0]]); held.pop(0)
            elif m == 'pop':
                box.pop(); held.pop()
            elif m == 'clear':
                box.clear(); held.clear()
            elif m == 'assign':
                o = self.o[l][p]
                if self.chain == 'md' and l == 0:
                    o.metadata = []
                else:
                    setattr(o, PROP[type(o)], [])
                held.clear()
        return True

    def above(self, l, k):
        """The containers of object k of level l, as far up as they hold it."""
        out = []
        while l > 0:
            p = self.last[l][k]
            if p is None:
                return out, True
            if k not in self.held[l - 1][p]:
                return out, False      # taken out: nothing is promised
            l, k = l - 1, p
            out.append(self.o[l][k])
        return out, True

    def check(self, what):
        for l in range(1, 4):
            for k in (0, 1):
                x = self.o[l][k]
                exp, whole = self.above(l, k)
                for n, anc in enumerate(exp):
                    key = 'lvl%d' % (l - 1 - n)
                    if x.get_attribute(key, None, inherit=True) \
                            != anc.attributes[key]:
                        self.bad(what, l, k, key)
                if self.chain != 'main':
                    continue
                names = ('corpus', 'igt', 'tier')[:l][::-1]
                for n, name in enumerate(names):
                    if n < len(exp):
                        if getattr(x, name) is not exp[n]:
                            self.bad(what, l, k, name)
                    elif whole and getattr(x, name) is not None:
                        self.bad(what, l, k, name)

    def bad(self, what, l, k, key):
        raise Violation('after %r: %r does not lead up to its container (%s), %s'
                        % (what, self.o[l][k], key, self.above(l, k)[0]))


def hist(case, ctx):
    chain, init, depth, first, n = case[1:6]
    ops = hist_ops(depth)
    fixed = [first] + case[6:]
    seen = 0
    for rest in itertools.product(ops, repeat=n - len(fixed)):
        seq = fixed + list(rest)
        w = World(chain, init)
        w.check([init])
        for i, op in enumerate(seq):
            if not w.step(op):
                break
            if i < n:
                w.check([init] + seq[:i + 1])
        else:
            seen += 1
            ctx.ev((chain, init, tuple(map(tuple, seq))))
    ctx.out('histories of %d operations' % n if seen else 'excluded')
