"""C09: rewriting and taking apart alignment expressions."""
import itertools
from mc.core import Violation
from mc import algn
from xigt import Tier, Item, ref

ID = 'C09'
LEVEL = 'exploration'
RULE = ('every alignment expression up to the bounds (as C07), expressions of many lengths '
        'and every id list: '
        'expand, compress, selections, spans and ids compared with the syntax tree, '
        'idempotence, mutual inverses and preservation of the resolved text; and every '
        'string over a 9-letter alphabet up to a length for "no character is lost"; '
        'distinct by string')
ASSUMPTIONS = []
BOUNDS = {'quick': 'strings <= 6 over 10 letters; expressions as listed in families()',
          'thorough': 'strings <= 7 over 10 letters'}

VALS = {'a1': 'abcd', 'a11': 'XYZ', 'b': 'qrstu', 'a-1': '', 'a.1': 'stu'}


def families(tier):
    th = tier == 'thorough'
    few = [(0, 1), (1, 9)] + ([(-2, -1), (10, 20)] if th else [])
    yield 'one', lambda: algn.expressions(['a1', 'a-1', 'a.1', 'b'], few + [(-2, 4), (10, 20)], 1, 2)
    yield 'one3', lambda: algn.expressions(['a1'], few + [(2, 1)], 1, 3)
    yield 'two', lambda: algn.expressions(['a1', 'a11', 'b'], few[:2], 2, 2)
    yield 'three', lambda: algn.expressions(['a1', 'b'], [(0, 1), (1, 9)], 3, 1)
    yield 'three2', lambda: algn.expressions(['a1'], [(0, 1)], 3, 2)
    yield 'four', lambda: algn.expressions(['a1', 'a11'], [(1, 2)], 4, 1)
    if th:
        yield 'threeX', lambda: algn.expressions(['a1', 'a11', 'b'], few[:3], 3, 1)
        yield 'five', lambda: algn.expressions(['a1', 'b'], [(1, 2)], 5, 1)


BLK = 16
SIZES = [8, 9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256,
         257, 511, 513, 999, 1000, 1001, 1025, 4097]
ALPHA = 'a1[]:+ ,-\n'


def cases(tier):
    for name, f in families(tier):
        for b in range(BLK):
            yield [name, b]
    yield ['lists']
    for n in SIZES:
        yield ['size', n]
    for n in range(0, (8 if tier == 'thorough' else 7)):
        if n < 3:
            yield ['raw', n, '']
        else:
            for p in itertools.product(ALPHA, repeat=2):
                yield ['raw', n, ''.join(p)]


def same(what, got, want):
    if got != want:
        raise Violation('%s gives %r, expected %r' % (what, got, want))


def alternate(pairs):
    out = []
    for d, t in pairs:
        if d:
            out.append(d)
        out.append(t)
    return out


def run(case, ctx):
    if case[0] == 'lists':
        return lists(ctx)
    if case[0] == 'size':
        return sizes(case[1], ctx)
    if case[0] == 'raw':
        return raw(case, ctx)
    name, blk = case
    t = Tier(id='t', items=[Item(id=i, text=v) for i, v in VALS.items()])
    fam = dict(families(ctx.tier))[name]
    for n, e in enumerate(fam()):
        if n % BLK != blk:
            continue
        s, x, c = one(e, VALS, t, ctx)
        ctx.out('%s: %s' % (name, 'compressible' if c != s else 'expandable'
                            if x != s else 'fixed'))
    ctx.sample([s, x, c])


def one(e, vals, t, ctx):
    s = algn.text(e)
    same('ids(%r)' % s, ref.ids(s), algn.ids(e))
    same('expand(%r)' % s, ref.expand(s), algn.text(algn.expand(e)))
    same('compress(%r)' % s, ref.compress(s), algn.text(algn.compress(e)))
    sels = [(d, algn.text([(None, i, sp)])) for d, i, sp in e]
    same('selections(%r)' % s, ref.selections(s), alternate(sels))
    same('selections(%r, keep_delimiters=False)' % s,
         ref.selections(s, keep_delimiters=False), [x for _, x in sels])
    sp = algn.spans(e)
    same('spans(%r)' % s, ref.spans(s), alternate(sp))
    same('spans(%r, keep_delimiters=False)' % s,
         ref.spans(s, keep_delimiters=False), [x for _, x in sp])
    x, c = ref.expand(s), ref.compress(s)
    same('expand twice on %r' % s, ref.expand(x), x)
    same('compress twice on %r' % s, ref.compress(c), c)
    same('compress(expand(%r))' % s, ref.compress(x), c)
    same('expand(compress(%r))' % s, ref.expand(c), x)
    want = algn.resolve(e, vals)
    for y in (x, c):
        same('resolve(%r), rewritten from %r,' % (y, s), ref.resolve(t, y), want)
    ctx.ev(s)
    return s, x, c


def sizes(n, ctx):
    """Long ids, many selections, spans and numbers of many digits."""
    vals = {'a' * n: 'xyz', 'b' + '9' * n: 'uvw', 'c' + '-.' * (n // 2): 'r', 'd': 's' * n}
    t = Tier(id='t', items=[Item(id=i, text=v) for i, v in vals.items()])
    for i, j in itertools.product(vals, repeat=2):
        for sp in (None, [(None, 1, 2)], [(None, 0, 1), (',', n, 10 ** (n % 90))]):
            for d in ',+':
                one([(None, i, sp), (d, j, sp)], vals, t, ctx)
                one([(None, i, sp), (d, i, sp), (d, j, None)], vals, t, ctx)
        s = i + ' ' * n + j
        same('ids(%r)' % s, ref.ids(s), [i, j])
        same('selections(%r)' % s, ref.selections(s), [i, ' ' * n, j])
    m = min(n, 600)
    few = {'w%d' % k: 'v%d' % k for k in range(m)}
    t = Tier(id='t', items=[Item(id=i, text=v) for i, v in few.items()])
    for d in (',', '+'):
        one([(d if k else None, i, None) for k, i in enumerate(few)], few, t, ctx)
        one([(d if k else None, i, [(None, 0, 1), ('+', 1, 2)]) for k, i in enumerate(few)],
            few, t, ctx)
        one([(None, 'w1', [(d if k else None, k, k + 1) for k in range(m)])], few, t, ctx)
        one([(d if k else None, 'w%d' % (k // 5), [(None, k, k + 1)]) for k in range(m)],
            few, t, ctx)
    s = ' '.join(few)
    same('ids of %d ids' % m, ref.ids(s), list(few))
    same('expand of %d ids' % m, ref.expand(s), s)
    ctx.out('long')


def lists(ctx):
    ids_ = ['a1', 'a11', 'b-2', 'c.3', 'd_4']
    for n in range(1, 5):
        for ii in itertools.product(ids_, repeat=n):
            for seps in itertools.product((' ', '  ', '\n'), repeat=n - 1):
                s = ii[0] + ''.join(a + b for a, b in zip(seps, ii[1:]))
                same('ids(%r)' % s, ref.ids(s), list(ii))
                same('expand(%r)' % s, ref.expand(s), s)
                same('compress(%r)' % s, ref.compress(s), s)
                alt = [ii[0]]
                for a, b in zip(seps, ii[1:]):
                    alt += [a, b]
                same('selections(%r)' % s, ref.selections(s), alt)
                same('spans(%r)' % s, ref.spans(s), alt)
                same('selections(%r, False)' % s, ref.selections(s, False), list(ii))
                same('spans(%r, False)' % s, ref.spans(s, False), list(ii))
                ctx.ev(s)
        if n == 3:
            ids_ = ids_[:3]
    for s in ('', ):
        for f in (ref.ids, ref.selections, ref.spans):
            same('%s of the empty string' % f.__name__, f(s), [])
        for f in (ref.expand, ref.compress):
            same('%s of the empty string' % f.__name__, f(s), '')


def raw(case, ctx):
    _, n, pre = case
    for t in itertools.product(ALPHA, repeat=n - len(pre)):
        s = pre + ''.join(t)
        same('joined selections(%r)' % s, ''.join(ref.selections(s)), s)
        x = ref.expand(s)
        same('joined spans(%r)' % s, ''.join(ref.spans(s)), x)
        ctx.ev(s, nontrivial='a' in s)
