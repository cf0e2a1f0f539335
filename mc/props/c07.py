"""C07: alignment expressions resolve to exactly the text they select."""
import itertools
from mc.core import Violation, catch
from mc import algn, dom
from xigt import Igt, Tier, Item, ref, resolve as top_resolve
from xigt.errors import XigtStructureError

ID = 'C07'
LEVEL = 'exploration'
RULE = ('every alignment expression (syntax tree) up to a number of selections, '
        'spans and index values over ids that are prefixes of one another and '
        'values that are empty, missing, non-ASCII or contain delimiters, texts, ids and '
        'expressions of many lengths up to 10001; resolved '
        'against a tier and against an IGT and compared with a direct evaluation of '
        'the tree; non-trivial: at least one id; distinct by expression and values')
ASSUMPTIONS = ['whitespace-separated id lists are not resolvable expressions']
BOUNDS = {'quick': '1 selection x <=2 spans over 64 index pairs; 1 x 3 spans and 2 x <=2 '
                   'spans over small index sets; 3 selections x <=1 span',
          'thorough': '1 x <=2 over 144 pairs, 1 x 3 over 16, 2 x <=2 over 6, 3 x <=1'}

IDS = ['a1', 'a11', 'a', 'a-1', 'a.1', 'A1', 'a_1', 'a1.b-c_2', 'w\u00e9']
# value sets: id -> text
VALUES = [
    {'a1': 'abcd', 'a11': 'XYZ', 'a': 'q', 'a-1': 'mno', 'a.1': 'stu', 'A1': 'UVW',
     'a_1': 'under', 'a1.b-c_2': 'long', 'w\u00e9': 'acc'},
    {'a1': '', 'a11': None, 'a': 'a,b+c', 'a-1': ' s p ', 'a.1': '[1:2]', 'A1': '\u00e9\U0001F600z',
     'a_1': '0', 'a1.b-c_2': 'a1', 'w\u00e9': '\n'},
]


def families(tier):
    th = tier == 'thorough'
    rng = [-5, -2, -1, 0, 1, 2, 4, 9] if not th else [-9, -5, -3, -2, -1, 0, 1, 2, 3, 4, 5, 12]
    pairs = list(itertools.product(rng, repeat=2))
    some = [(0, 2), (1, 3), (-2, 4), (2, 1)]
    few = [(0, 1), (1, 9), (-2, -1), (2, 2)]
    if th:
        some = some + [(0, 0), (-1, 9), (0, 9), (1, -1), (12, 13), (2, 2), (-3, -1), (3, 4),
                       (0, -1), (1, 2), (-9, 1), (4, 4)]
        few = few + [(-2, -1), (0, 0), (2, 4), (1, 0)]
    yield 'one', lambda: algn.expressions(IDS, [(0, 2), (-1, 9), (1, 10)], 1, 1)
    yield 'one2', lambda: algn.expressions(['a1'], pairs, 1, 2)
    yield 'one3', lambda: algn.expressions(['a11'], some, 1, 3)
    yield 'two', lambda: algn.expressions(IDS[:5], few[:2], 2, 1)
    yield 'two2', lambda: algn.expressions(['a1', 'a.1'], few, 2, 2)
    yield 'three', lambda: algn.expressions(['a1', 'a-1', 'a11'], few[:3], 3, 1)
    yield 'unknown', lambda: algn.expressions(['a1', 'zz', 'a1x'], few[:2], 2, 1)


BLK = 16
SIZES = [8, 9, 10, 11, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256,
         257, 511, 513, 999, 1000, 1001, 1025, 4097, 10001]


def sizes(n, ctx):
    """Long texts, long ids, many selections and spans."""
    body = ''.join(chr(97 + k * 7 % 26) + str(k % 10) for k in range(n))[:n]
    vals = {'L': body, 'a' * n: 'xyz', 'b' + '9' * n: 'uvw', 'L-' + 'x.' * (n // 2): None}
    t, g = holders(vals)
    at = sorted({0, 1, n // 2, n - 1, n, n + 1, -1, -n, -n - 1, 1 - n})
    for s, e in itertools.product(at, repeat=2):
        agree([(None, 'L', [(None, s, e)])], vals, t, g, ctx)
        agree([(None, 'L', [(None, 0, 2), ('+', s, e), (',', e, s)])], vals, t, g, ctx)
        ctx.ev(('size', n, s, e))
    for i, j in itertools.product(vals, repeat=2):
        for sp in (None, [(None, 1, 2)]):
            for d in ',+':
                agree([(None, i, sp), (d, j, None), (d, i, sp)], vals, t, g, ctx)
                ctx.ev(('size', n, i == j, len(i), len(j), bool(sp), d))
    m = min(n, 1025)
    few = {'w%d' % k: 'v%d' % k for k in range(m)}
    t, g = holders(few)
    for d in (',', '+'):
        agree([(d if k else None, i, None) for k, i in enumerate(few)], few, t, g, ctx)
        agree([(d if k else None, i, [(None, 1, 9)]) for k, i in enumerate(few)], few, t, g, ctx)
        agree([(None, 'w3', [(d if k else None, k % 2, 2) for k in range(m)])], few, t, g, ctx)
        agree([(None, 'w%d' % (m - 1), None)], few, t, g, ctx)
        ctx.ev(('many', m, d))
    ctx.out('long')


def cases(tier):
    for name, f in families(tier):
        for vi in range(len(VALUES)):
            for b in range(BLK):
                yield [name, vi, b]
    yield ['blank']
    for n in SIZES:
        yield ['size', n]
    for vi in range(len(VALUES)):
        yield ['wide', vi]


def holders(vals):
    # items have alignments, which say nothing about their values
    t = Tier(id='t', attributes={'alignment': 'z', 'segmentation': 'z'}, items=[
        Item(id=i, text=v, attributes=[{}, {'alignment': 'z1'}, {'alignment': 'z1[0:2]'}][k % 3])
        for k, (i, v) in enumerate(vals.items())])
    g = Igt(id='g', tiers=[Tier(id='z', items=[Item(id='z1', text='zzz')]), t])
    return t, g


def agree(e, vals, t, g, ctx):
    s = algn.text(e)
    try:
        want = ('ok', algn.resolve(e, vals))
    except KeyError:
        want = ('err', XigtStructureError)
    for name, fn in (('tier', lambda: ref.resolve(t, s)),
                     ('igt', lambda: ref.resolve(g, s)),
                     ('top', lambda: top_resolve(t, s))):
        st, got = catch(fn)
        if st == 'err':
            if want[0] == 'ok':
                raise Violation('resolve(%s, %r) with %r raised %r, expected %r'
                                % (name, s, vals, got, want[1]))
            if not isinstance(got, XigtStructureError):
                raise Violation('resolve(%s, %r): %r instead of a structure error'
                                % (name, s, got))
        elif want[0] == 'err':
            raise Violation('resolve(%s, %r) with ids %r gives %r, expected a '
                            'structure error' % (name, s, sorted(vals), got))
        elif got != want[1] or type(got) is not str:
            raise Violation('resolve(%s, %r) with %r gives %r, expected %r'
                            % (name, s, vals, got, want[1]))
    ctx.evaluations += 3
    return want


def run(case, ctx):
    if case[0] == 'size':
        return sizes(case[1], ctx)
    if case[0] == 'blank':
        t, g = holders(VALUES[0])
        for s in ('', ' ', '   '):
            if ref.resolve(t, s) != '' or ref.resolve(g, s) != '':
                raise Violation('resolve of %r is not empty' % s)
        for pad in (' ', '  ', '\n', '\t'):
            for e in ('a1', 'a1[0:2]', 'a1[0:1,2:3]+a11'):
                if ref.resolve(t, pad + e + pad) != ref.resolve(t, e):
                    raise Violation('surrounding space matters in %r' % e)
                ctx.ev(('blank', pad, e))
        return
    if case[0] == 'wide':
        # every pair of ids, every delimiter, ranges with many-digit bounds
        vals = VALUES[case[1]]
        t, g = holders(vals)
        for i, j in itertools.product(IDS, repeat=2):
            for d in ',+':
                for sp in (None, [(None, 0, 100)], [(None, 10, 20), (',', 0, 1)],
                           [(None, -10, 12)]):
                    e = [(None, i, sp), (d, j, sp)]
                    agree(e, vals, t, g, ctx)
                    ctx.ev(('wide', case[1], algn.text(e)))
        long = {'L': ''.join(chr(97 + k % 26) for k in range(120))}
        t, g = holders(long)
        for s, e_ in itertools.product((0, 9, 10, 11, 99, 100, 119, 120, -1, -10, -100,
                                        -120, -121), repeat=2):
            agree([(None, 'L', [(None, s, e_)])], long, t, g, ctx)
            ctx.ev(('long', s, e_))
        return
    name, vi, blk = case
    vals = VALUES[vi]
    t, g = holders(vals)
    fam = dict(families(ctx.tier))[name]
    for n, e in enumerate(fam()):
        if n % BLK != blk:
            continue
        want = agree(e, vals, t, g, ctx)
        ctx.ev((vi, algn.text(e)))
        ctx.out(name + (' unknown id' if want[0] == 'err' else
                        ' empty' if not want[1] else ' text'))
    ctx.sample([algn.text(e), want[0], str(want[1])])
