"""C12: descendants."""
from collections import deque
from mc.core import Violation, h64
from mc.props import c11
from xigt import query

ID = 'C12'
LEVEL = 'exploration'
RULE = c11.RULE.replace('the sequence produced is', 'with follow=first and all; the '
                        'sequence produced is')
ASSUMPTIONS = c11.ASSUMPTIONS + [
    'breadth-first order, each (tier, attribute) followed once, as documented']
A, S, C = c11.A, c11.S, c11.C
MODES = [(None, None), (None, 'all'), ((A, S), 'first'), ((A, S), 'all'),
         ((A,), None), ((C, A), 'all')]
cases = c11.cases


def reference(g, tid, items, pref, follow):
    out = []
    done = set()
    todo = deque([(tid, items)])
    while todo:
        t, items = todo.popleft()
        back = {ra: [u for u in g.names if g.attrs[u].get(ra) == t] for ra in pref}
        ras = [ra for ra in pref if back[ra]]
        if follow == 'first':
            ras = ras[:1]
        for ra in ras:
            if (t, ra) in done:
                continue
            done.add((t, ra))
            for u in back[ra]:
                hit = [i for i in g.items[u]
                       if set(g.refs[i].get(ra, [])) & set(items)]
                out.append((t, ra, u, hit))
                todo.append((u, hit))
    return out


def run(case, ctx):
    for g in c11.expand_graph(case, ctx.tier):
        igt = g.build()
        gk = h64(g.show())
        for pref, follow in MODES:
            p = pref or (S, A)
            if True:
                for t in c11.starts(g):
                    for start in [None] + g.items[t]:
                        obj = igt[t] if start is None else igt[t][g.items[t].index(start)]
                        items = g.items[t] if start is None else [start]
                        want = reference(g, t, items, p, follow or 'first')
                        kw = {}
                        if pref:
                            kw['refattrs'] = pref
                        if follow:
                            kw['follow'] = follow
                        got = []
                        for tup in query.descendants(obj, **kw):
                            got.append(tup)
                            if len(got) > len(want) + 1:
                                break
                        names = [(a.id, r, b.id, [x.label for x in xs])
                                 for a, r, b, xs in got]
                        if names != want:
                            raise Violation(
                                'descendants of %s (%r) in %r: %r, expected %r'
                                % (start or t, kw, g.show(), names, want))
                        for a, r, b, xs in got:
                            if a is not igt[a.id] or b is not igt[b.id] or \
                                    any(x is not b[g.items[b.id].index(x.label)] for x in xs):
                                raise Violation('descendants yields objects that are '
                                                'not in the IGT')
                        ctx.ev(hash((gk, start or t, pref, follow)),
                               nontrivial=bool(want))
                        ctx.out('%d steps' % len(want))
    ctx.sample([g.show(), want])
