"""C13: sort_tiers."""
import itertools
from mc.core import Violation
from mc.props import c11
from xigt import Igt, Tier, Item

ID = 'C13'
LEVEL = 'exploration'
RULE = ('every reference graph over 3 tiers (each with any subset of at most two of three '
        'reference attributes, naming any tier, itself, or a missing one), over 4 tiers '
        'with at most one attribute each and over 5 tiers in a forest, chains, cycles, stars and '
        'trees of up to 258 tiers in several orders, in that document '
        'order, x orders of preference; result compared with the depth-first order of '
        'the reference forest; distinct = distinct (graph, preference)')
ASSUMPTIONS = ['in a cyclic graph only "same tiers, terminates" is required for the '
               'tiers whose chain of references runs into the cycle']
A, S, C = 'alignment', 'segmentation', 'content'
PREFS = [None, (S, A, C), (A, S, C), (A,), (C, S), ()]
NB = 32


def options(n, attrs, two):
    tg = list(range(n)) + ['gone']
    opts = [()] + [((ra, t),) for ra in attrs for t in tg]
    if two:
        opts += [((r1, t1), (r2, t2)) for r1, r2 in itertools.combinations(attrs, 2)
                 for t1 in tg for t2 in tg[:n]]
    return opts


def graphs(fam):
    if fam == '2':
        yield from itertools.product(options(2, (A, S, C), True), repeat=2)
    elif fam == '3two':
        yield from itertools.product(options(3, (A, S), True), repeat=3)
    elif fam == '3':
        yield from itertools.product(options(3, (A, S, C), False), repeat=3)
    elif fam == '3twoC':
        yield from itertools.product(options(3, (A, S, C), True), repeat=3)
    elif fam == '4':
        yield from itertools.product(options(4, (A, S), False), repeat=4)
    elif fam == '4C':
        yield from itertools.product(options(4, (A, S, C), False), repeat=4)
    elif fam == '5':
        opts = [()] + [((S, t),) for t in range(5)]
        yield from itertools.product(opts, repeat=5)
    elif fam == '5AS':
        opts = [()] + [((ra, t),) for ra in (A, S) for t in range(4)]
        yield from itertools.product(opts, repeat=5)


def cases(tier):
    fams = ['2', '3', '3two', '4', '5']
    if tier == 'thorough':
        fams += ['3twoC', '4C', '5AS']
    for f in fams:
        for b in range(NB):
            yield [f, b]
    yield ['noid']
    for shape in c11.SHAPES:
        for n in c11.SIZES:
            yield ['size', shape, n]


IDS = ['t2', 'a', 't', 'b', 'aa']     # document order is not alphabetical


def reference(ids, refs, pref):
    """(expected order, set of ids whose position is not determined)."""
    n = len(ids)
    parent, rank = {}, {}
    for i in ids:
        for r, ra in enumerate(pref):
            if ra in refs[i]:
                if refs[i][ra] in refs:
                    parent[i], rank[i] = refs[i][ra], r
                break
    bad = set()
    for i in ids:
        seen, j = [], i
        while j in parent and j not in seen:
            seen.append(j)
            j = parent[j]
        if j in seen:
            bad.add(i)
    out = []
    def visit(i):
        out.append(i)
        kids = [k for k in ids if parent.get(k) == i]
        for k in sorted(kids, key=lambda k: rank[k]):   # stable
            visit(k)
    for i in ids:
        if i not in parent and i not in bad:
            visit(i)
    return out, bad


def check(ids, g, pref, ctx):
    refs = {i: {ra: ids[t] if t != 'gone' else 'gone' for ra, t in o}
            for i, o in zip(ids, g)}
    igt = Igt(id='g', tiers=[Tier(id=i, attributes=refs[i], items=[Item(id='i' + i)])
                             for i in ids])
    objs = {i: igt[i] for i in ids}
    p = (S, A, C) if pref is None else pref
    want, bad = reference(ids, refs, p)
    for again in (1, 2):
        if pref is None:
            igt.sort_tiers()
        else:
            igt.sort_tiers(refattrs=pref)
        got = [t.id for t in igt]
        what = 'sort_tiers(%r)%s of %r' % (pref, ' twice' if again == 2 else '',
                                           [(i, refs[i]) for i in ids])
        if sorted(got) != sorted(ids) or any(igt[i] is not objs[i] for i in ids) or \
                any(igt[k].id != i for k, i in enumerate(got)):
            raise Violation('%s: %r is not a permutation of the tiers' % (what, got))
        if [i for i in got if i not in bad] != want:
            raise Violation('%s: %r, expected %r%s' % (
                what, got, want, ' (apart from %r)' % sorted(bad) if bad else ''))
        if any(objs[i].attributes != refs[i] or objs[i].igt is not igt
               or len(objs[i]) != 1 for i in ids):
            raise Violation('%s changes the tiers' % what)
    ctx.ev((ids, g, pref))
    ctx.out('cyclic' if bad else 'moved' if want != list(ids) else 'in place')


def run(case, ctx):
    if case[0] == 'noid':
        return noid(ctx)
    if case[0] == 'size':
        # many tiers, in several document orders
        _, shape, n = case
        for step in (1, 7, -1, -3):
            place = [k * step % n for k in range(n)]
            if len(set(place)) < n:
                continue
            for ras in ((S,), (A, S), (S, C, A)):
                g = [None] * n
                for k in range(n):
                    t = c11.SHAPES[shape](k, n)
                    g[place[k]] = () if t is None else ((ras[k % len(ras)], place[t]),)
                for pref in PREFS[:3]:
                    check(['t%d' % k for k in range(n)], g, pref, ctx)
        return
    fam, b = case
    for k, g in enumerate(graphs(fam)):
        if k % NB != b:
            continue
        ids = IDS[:len(g)]
        for pref in PREFS if len(g) < 4 else PREFS[:3]:
            check(ids, g, pref, ctx)
    ctx.sample([fam, ids, g])


def noid(ctx):
    """Tiers without identifiers keep their place among the roots."""
    for g in itertools.product([None, 'a', 'b'], repeat=4):
        ids = [i for i in g if i]
        if len(set(ids)) != len(ids):
            continue
        for ref in (None, 'a', 'b', 'gone'):
            tiers = [Tier(id=i, attributes={'segmentation': ref}
                          if ref and i is None else {}) for i in g]
            igt = Igt(id='g', tiers=tiers)
            igt.sort_tiers()
            if sorted(map(id, igt)) != sorted(map(id, tiers)):
                raise Violation('sort_tiers of %r loses tiers' % (g,))
            if ref is None or ref not in g:
                want = [id(t) for t in tiers]
            else:
                want = []
                for t in tiers:
                    if t.id is not None:
                        want.append(id(t))
                        if t.id == ref:
                            want += [id(u) for u in tiers if u.id is None]
            if [id(t) for t in igt] != want:
                raise Violation('sort_tiers of %r with id-less tiers referring to %r: '
                                '%r' % (g, ref, [t.id for t in igt]))
            ctx.ev(('noid', g, ref))
