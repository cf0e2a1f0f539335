"""C11/C12 shared enumeration; this module decides C11 (ancestors)."""
import itertools
from mc.core import Violation, h64
from mc.tgraph import G, NAMES, NAMES4, PATTERNS
from xigt import query

ID = 'C11'
LEVEL = 'exploration'
RULE = ('every reference graph over 3 tiers with two reference attributes (each unset or '
        'naming any tier, cycles and self references included; thorough: 4 tiers), x '
        'patterns of item references (with and without items that have no id), x orders of preference, started from every tier '
        'and every item, and chains, cycles, stars, stars of stars and trees of up to 258 tiers; the sequence produced is compared with a walk over the '
        'description; distinct = distinct (graph, pattern, start, preference)')
ASSUMPTIONS = ['references name existing tiers', 'every tier has an id (items may have none)']
A, S, C = 'alignment', 'segmentation', 'content'
PREFS = [None, (A, S), (S, A), (A,), (S,), (C, S)]


def graphs(tier, n):
    """(names, attrs) for all graphs."""
    if n == 3:
        opts = [None, 0, 1, 2]
        for conf in itertools.product(opts, repeat=6):
            yield [{ra: conf[2 * k + j] for j, ra in enumerate((A, S))
                    if conf[2 * k + j] is not None} for k in range(3)]
    else:
        opts = [None] + [(ra, t) for ra in (A, S) for t in range(4)]
        for conf in itertools.product(opts, repeat=4):
            yield [dict([o]) if o else {} for o in conf]


def cases(tier):
    if tier == 'thorough':
        ns = [(3, i, p) for i in range(len(NAMES)) for p in PATS_T]
        ns += [(4, i, p) for i in range(len(NAMES4)) for p in PATS]
    else:
        ns = [(3, 0, p) for p in PATS] + [(3, 1, PATS[1]), (3, 2, PATS[2])]
        ns += [(4, 0, PATS[1])]
    for n, i, p in ns:
        for b in range(32):
            yield [n, i, list(p), b]
    for shape in SHAPES:
        for size in SIZES:
            yield ['size', shape, size]


# graphs of many tiers: the target of tier k of n
SHAPES = {
    'chain': lambda k, n: k - 1 if k else None,
    'cycle': lambda k, n: (k - 1) % n,
    'star': lambda k, n: 0 if k else None,
    'stars': lambda k, n: k - (n + 1) // 2 if k >= (n + 1) // 2 and k > 1 else 0 if k else None,
    'tree': lambda k, n: (k - 1) // 2 if k else None,
}
SIZES = [5, 9, 10, 11, 12, 17, 18, 33, 34, 40, 65, 66, 101, 130, 258]
PATS = [(0,), (1, 2), (3, 4, 5)]
PATS_T = PATS + [(2, 0, 1), (4, 3), (5, 1, 0)]


def big_graph(shape, n):
    names = ['t%d' % k for k in range(n)]
    attrs = []
    for k in range(n):
        t = SHAPES[shape](k, n)
        attrs.append({} if t is None else {A if k % 3 else S: names[t]})
    return G(names, attrs, (0, 2))


def expand_graph(case, tier):
    if case[0] == 'size':
        yield big_graph(*case[1:])
        return
    n, i, p, b = case
    names = NAMES[i] if n == 3 else NAMES4[i]
    for k, attrs in enumerate(graphs(tier, n)):
        if k % 32 == b:
            a = [{ra: names[t] for ra, t in a.items()} for a in attrs]
            yield G(names, a, p)
            if n == 3:
                yield G(names, a, p, anon=True)


def reference(g, tid, items, pref):
    out = []
    seen = {tid}
    while True:
        ra = next((r for r in pref if r in g.attrs[tid]), None)
        if ra is None:
            return out
        tgt = g.attrs[tid][ra]
        wanted = set(j for i in items for j in g.refs[i].get(ra, []))
        hit = [j for j in g.items[tgt] if j in wanted]
        out.append((tid, ra, tgt, hit))
        if tgt in seen:
            return out
        seen.add(tgt)
        tid, items = tgt, hit


def starts(g):
    n = len(g.names)
    return g.names if n < 41 else [g.names[k] for k in sorted({0, 1, n // 2, n - 2, n - 1})]


def run(case, ctx):
    for g in expand_graph(case, ctx.tier):
        igt = g.build()
        gk = h64(g.show())
        for pref in PREFS:
            p = pref or (A, S)
            for t in starts(g):
                for start in [None] + g.items[t]:
                    obj = igt[t] if start is None else igt[t][g.items[t].index(start)]
                    items = g.items[t] if start is None else [start]
                    want = reference(g, t, items, p)
                    it = (query.ancestors(obj) if pref is None
                          else query.ancestors(obj, refattrs=pref))
                    got = []
                    for tup in it:
                        got.append(tup)
                        if len(got) > len(want) + 1:
                            break
                    names = [(a.id, r, b.id, [x.label for x in xs]) for a, r, b, xs in got]
                    if names != want:
                        raise Violation('ancestors of %s with preference %r in %r: %r, '
                                        'expected %r' % (start or t, pref, g.show(),
                                                         names, want))
                    for a, r, b, xs in got:
                        if a is not igt[a.id] or b is not igt[b.id] or \
                                any(x is not b[g.items[b.id].index(x.label)] for x in xs):
                            raise Violation('ancestors yields objects that are not in '
                                            'the IGT')
                    ctx.ev(hash((gk, start or t, pref)), nontrivial=bool(want))
                    ctx.out('chain of %d' % len(want))
    ctx.sample([g.show(), want])
