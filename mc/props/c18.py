"""C18: XigtPath location paths."""
import itertools
from mc import xpath
from mc.core import Violation
from xigt import xigtpath as xp

ID = 'C18'
LEVEL = 'exploration'
IMPORTS = ('xigt', 'xigt.xigtpath')
RULE = ('every location path of up to 3 (thorough 4 over a reduced step set) steps over 20 '
        'node tests (names, confusing names, prefixed names, wildcards, self, parent) x '
        'child or descendant axis, optionally ending in one of 9 attribute tests, '
        'relative, absolute and absolute-descendant, from 11 start objects of every kind '
        'on a corpus using every feature, and on an empty one; paths of up to 130 steps '
        'over up to 129 igts, tiers, items and levels; results compared by identity and order with a reference '
        'evaluator on the syntax tree; distinct = distinct (start, path)')
ASSUMPTIONS = ['a result is listed once per way it is reached (as the tests require)',
               'prefixes are declared on the corpus']
NAMES = ['igt', 'tier', 'item', 'metadata', 'meta', '*', 'a:item', 'a:tier', 'a:*',
         'a:metadata', 'subject', 'a:subject', 'x', 'text', 'values', 'a.b',
         'b:referents', 'nosuch', 'q:item']
SMALL = ['igt', 'tier', 'item', 'metadata', 'meta', '*', 'a:*', 'a:subject', 'a.b']
ATTRS = ['id', 'type', 'name', 'k', 'a:k', 'a:code', '*', 'a:*', 'none']


def tests(names, dd=True):
    out = [('/', ('n', n)) for n in names]
    if dd:
        out += [('//', ('n', n)) for n in names]
    return out + [('/', ('.',)), ('/', ('..',))]


def finals():
    return [('/', ('@', a)) for a in ATTRS]


def paths(first, depth, names):
    """All paths whose first step is `first`, up to depth steps."""
    mid = tests(names)
    fin = finals()
    heads = [[first]]
    for d in range(1, depth + 1):
        nxt = []
        for h in heads:
            yield h
            if h[-1][1][0] == '@':
                continue
            if d < depth:
                nxt += [h + [t] for t in mid + fin]
        heads = nxt


def cases(tier):
    for n in xpath.SIZES:
        yield ['size', n]
    for f in range(2):
        for i, (name, _) in enumerate(xpath.contexts(xpath.fixtures()[f])):
            for j in range(len(tests(NAMES, False) + finals())):
                yield [f, i, j, 'quick']
                if tier == 'thorough' and f == 0:
                    yield [f, i, j, 'deep']


def sizes(n, ctx):
    """Paths of many steps, and many results."""
    xc = xpath.big(n)
    N = lambda s: ('n', s)
    UP = ('..',)
    loops = [[N('tier'), UP], [('.',)], [N('tier'), N('item'), UP, UP],
             [N('tier'), ('.',), UP]]
    starts = [('igt one', xc['one']), ('corpus', xc), ('items', xc['items']['is'])]
    paths_ = []
    for loop in loops:
        for k in (n, n + 1):
            steps = [('/', t) for t in (loop * k)[:k]]
            for end in ([], [('/', ('@', 'id'))], [('//', N('item')), ('/', ('@', 'id'))]):
                paths_.append(('', steps + end))
                if loop == [('.',)]:
                    paths_.append(('/', [('/', N('igt'))] + steps + end))
    paths_.append(('', [('/', N('metadata')), ('/', N('meta'))] + [('/', N('x'))] * n))
    paths_.append(('', [('/', N('metadata')), ('/', N('meta'))] + [('/', N('x'))] * n
                   + [('/', UP)] * n + [('/', ('@', 'name'))]))
    paths_.append(('', [('//', N('x'))]))
    for names in (['igt'], ['igt', 'tier'], ['igt', 'tier', 'item'], ['*', '*'], ['tier'],
                  ['item']):
        for ab in ('', '/', '//'):
            steps = [('/', N(s)) for s in names]
            paths_.append((ab, steps))
            paths_.append((ab, steps + [('/', ('@', 'id'))]))
            paths_.append((ab, steps + [('/', UP), ('/', ('@', 'id'))]))
    for name, obj in starts:
        for ab, steps in paths_:
            if steps[0][0] == '//' and not ab:
                steps = [('/', ('.',))] + steps
            p = (ab, [(s, t, []) for s, t in steps])
            r = xpath.compare(xp, p, name, obj, '', Violation)
            ctx.ev(hash((n, name, xpath.render(p))), bool(r))
    for m in (n, n * 7):
        # long names and values
        from xigt import XigtCorpus, Igt, Tier
        name = 'k' * m + '.b-c'
        x = XigtCorpus(igts=[Igt(id='i', attributes={name: 'v', name + 'x': 'w'})])
        for path, want in (('igt/@' + name, ['v']), ('igt/@' + name + 'x', ['w']),
                           ('igt/@' + name[:-1], []), ('//' + name, [])):
            got = xp.findall(x, path)
            if got != want:
                raise Violation('findall(%r) gives %r, expected %r' % (path, got, want))
    ctx.out('many')


def run(case, ctx):
    if case[0] == 'size':
        return sizes(case[1], ctx)
    f, i, j, kind = case
    xc = FIX[f]
    name, obj = list(xpath.contexts(xc))[i]
    sep, test = (tests(NAMES, False) + finals())[j]
    depth, names = (3, NAMES) if kind == 'quick' else (4, SMALL)
    k = 0
    for ab in ('', '/', '//'):
        if ab == '//' and test[0] != 'n':
            continue
        if ab and i:            # absolute paths: same result from everywhere
            if depth > 2 and i > 2:
                continue
        for h in paths((ab, test), depth, names):
            p = (ab, [(s, t, []) for s, t in h])
            r = xpath.compare(xp, p, name, obj, '', Violation)
            k += 1
            if r is not None:
                ctx.ev(hash((f, i, xpath.render(p))), bool(r))
                ctx.out('empty' if not r else '1 result' if len(r) == 1 else 'several')
    if j == 1:
        ctx.sample({'start': name, 'path': xpath.render(p)})


FIX = xpath.fixtures()
