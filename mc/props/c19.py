"""C19: XigtPath predicates, disjunctions and functions."""
import itertools
from mc import xpath
from mc.core import Violation
from mc.dom import build, tier, item
from xigt import xigtpath as xp

ID = 'C19'
LEVEL = 'exploration'
IMPORTS = ('xigt', 'xigt.xigtpath')
RULE = ('(a) every step path of a list x up to two predicates out of all combinations of 26 '
        'predicate paths with existence, = and != of 14 values (incl. quotes, backslashes, '
        'brackets, operators) x continuation; (b) every disjunction of two (three) of 16 '
        'alternatives at the start, after a step, after a step without results, nested, '
        'x continuation and predicate; (c) every path x function x argument list x '
        'continuation; (d) predicates on the paths of predicates; up to 129 predicates, alternatives, members, levels of parentheses (33), values of up '
        'to 1806 characters; (e) spacing and escaping variants of all of them; from every kind '
        'of start object; results compared by identity and order with a reference '
        'evaluator on the syntax tree; distinct = distinct (start, expression)')
ASSUMPTIONS = ['functions are applied to objects they are defined for: text() to items, '
               'metas and nested metadata, value() to items, referent() and referrer() to '
               'tiers and items']


def P(ab, *steps):
    out = []
    for s in steps:
        sep = '/'
        if isinstance(s, str):
            if s.startswith('//'):
                sep, s = '//', s[2:]
            if s in ('.', '..'):
                t = (s,)
            elif s.startswith('@'):
                t = ('@', s[1:])
            elif s.endswith('()'):
                t = ('f', s[:-2], [])
            else:
                t = ('n', s)
            preds = []
        else:
            t, preds = s
        out.append((sep, t, list(preds)))
    return (ab, out)


def F(name, *args):
    return (('f', name, list(args)), [])


def U(*paths):
    return (('u', list(paths)), [])


def with_preds(path, preds):
    ab, steps = path
    return (ab, steps[:-1] + [steps[-1][:2] + (list(preds),)])


def plus(path, *more):
    return (path[0], path[1] + P('', *more)[1])


BASES = [P('//', 'item'), P('//', 'tier'), P('/', 'igt'), P('', 'igt', 'tier', 'item'),
         P('', 'tier', 'item'), P('', 'item'), P('', '.'), P('', '..'), P('', 'metadata'),
         P('//', 'meta'), P('//', 'subject'), P('', '*'), P('//', 'a:subject'),
         P('', '.', '//item'), P('', 'nosuch'), P('/', 'igt', '*'),
         P('', 'igt', '//tier')]
PPATHS = [P('', '@id'), P('', '@type'), P('', '@k'), P('', '@a:k'), P('', '@none'),
          P('', '@*'), P('', 'text()'), P('', 'value()'), P('', '..', '@type'),
          P('', '..', '..', '@id'), P('', 'tier'), P('', 'item'), P('', 'item', '@id'),
          P('', 'metadata'), P('//', 'item'), P('', '.', '//x'), P('', 'referent()'),
          P('', F('referent', 'alignment')), P('', 'referrer()'),
          P('', F('referrer', 'segmentation', 'alignment'), '@id'), P('', '.'),
          P('', U(P('', '@id'), P('', '@type'))), P('', 'item', 'text()'),
          P('/', 'igt', '@id'), P('', U(P('', 'tier'), P('', 'metadata')), '*'),
          P('', '.', '//item', '@id')]
VALUES = ['p', 'w1', 'words', 'phrases', '', 'odd "q" \\ ]=', 'a"b', '"', '\\', ']', '=',
          'v', ' w1', 'lang', 'm1', 'g1', 'deep', 'Japanese', 'A', 'zz']
ALTS = [P('', 'tier'), P('', 'item'), P('', 'igt'), P('', 'metadata'), P('', '.'),
        P('', '..'), P('', '@id'), P('', 'nosuch'), P('//', 'item'), P('/', 'igt'),
        P('', 'igt', 'tier'), P('', 'nosuch', 'nosuch', U(P('', 'a'), P('', 'b'))),
        with_preds(P('', 'tier'), [('eq', P('', '@type'), 'words')]),
        P('', '*', '@type'), P('', U(P('', 'tier'), P('', 'item')), '@id'),
        P('', '.', '//item', 'text()'), P('', U(P('', 'nosuch'), P('', 'metadata')))]
PRES = [(), ('nosuch',), ('igt',), ('.',), ('*',), ('//tier',), ('tier', '..')]
CONTS = [(), ('@id',), ('*',), ('//item',), ('..',), ('item', 'value()'),
         (U(P('', '@id'), P('', '@type')),)]
ARGS = [(), ('alignment',), ('segmentation',), ('content', 'alignment'),
        ('segmentation', 'alignment', 'content'), ('none',)]
SPACES = ['', ' ', '\n  ']
# predicates of paths within predicates
INNER = [('ex', P('', '@id'), ''), ('ex', P('', 'item'), ''), ('eq', P('', '@type'), 'words'),
         ('ne', P('', '@type'), 'words'), ('eq', P('', '@id'), 'w1'), ('ex', P('', 'nosuch'), ''),
         ('eq', P('', 'value()'), 'odd "q" \\ ]='), ('eq', P('', 'item', '@id'), 'w1'),
         ('ex', with_preds(P('', 'item'), [('eq', P('', '@id'), 'w1')]), '')]


QVALUES = ['p', 'words', '', 'odd "q" \\ ]=', 'w1', 'v']


def preds(tier):
    for p in PPATHS:
        yield ('ex', p, '')
        for v in VALUES if tier == 'thorough' else QVALUES:
            yield ('eq', p, v)
            yield ('ne', p, v)


def expressions(kind, tier):
    if kind[0] == 'pred':
        base = BASES[kind[1]]
        allp = list(preds(tier))
        for p in allp:
            yield with_preds(base, [p])
            yield plus(with_preds(base, [p]), '@id')
            yield plus(with_preds(base, [p]), '*')
        few = [p for p in allp if p[0] == 'ex' or p[2] in ('w1', 'words', 'v', 'p')]
        second = few if tier == 'thorough' else few[::4]
        first = few if tier == 'thorough' else few[1::7]
        for p, q in itertools.product(first, second):
            yield with_preds(base, [p, q])
    elif kind[0] == 'union':
        a = ALTS[kind[1]]
        for b in ALTS:
            alts = [(a, b)] + ([(a, b, c) for c in ALTS] if tier == 'thorough'
                               else [(a, b, a), (a, b, ALTS[0])])
            for al in alts:
                for pre in (PRES if tier == 'thorough' or len(al) == 2 else PRES[:2]):
                    for c in CONTS:
                        ab = '' if not pre else ''
                        yield P(ab, *(pre + (U(*al),) + c))
                    u = (('u', list(al)), [('ex', P('', '@id'), '')])
                    yield P('', *(pre + (u, '@id')))
                    u = (('u', list(al)), [('eq', P('', '@type'), 'words'),
                                           ('ne', P('', '@id'), 'x')])
                    yield P('', *(pre + (u,)))
        yield P('', U(a))
        yield P('/', U(a, a), '@id')
    elif kind[0] == 'nest':
        base = BASES[kind[1]]
        for b, i in itertools.product(('tier', 'item', '*', '.', '..'), INNER):
            inner = with_preds(P('', b), [i])
            outs = [inner, plus(inner, '@id'), plus(inner, 'item', '@id'),
                    P('', U(inner, P('', 'metadata'))), P('', U(P('', 'igt'), inner), '@type')]
            if tier == 'thorough':
                outs += [with_preds(P('', b), [i, j]) for j in INNER]
                outs += [plus(inner, with_preds(P('', c), [i])[1][0][1:])
                         for c in ('item', '..')]
            for o in outs:
                for p in (('ex', o, ''), ('eq', o, 'w1'), ('ne', o, 'w1')):
                    yield with_preds(base, [p])
                yield plus(with_preds(base, [('ex', o, ''), ('ex', P('', '@id'), '')]), '@id')
    else:
        base = BASES[kind[1]]
        for fn in ('text', 'value', 'referent', 'referrer'):
            for args in ARGS if fn.startswith('ref') else [()]:
                yield plus(base, F(fn, *args))
                if fn.startswith('ref'):
                    for c in CONTS[1:]:
                        yield plus(base, F(fn, *args), *c)
                    yield plus(base, (F(fn, *args)[0], [('ex', P('', '@alignment'), '')]))
                    yield plus(base, (F(fn, *args)[0], [('eq', P('', '..', '@id'), 'g1')]))
                    for fn2 in ('referent', 'referrer'):
                        yield plus(base, F(fn, *args), F(fn2))
                        yield plus(base, F(fn, *args), F(fn2), 'value()')
        for p in [('eq', P('', '@type'), 'words'), ('eq', P('', '@id'), 'm1')]:
            for fn in ('referent', 'referrer'):
                yield plus(with_preds(base, [p]), F(fn), '@id')


def cases(tier):
    for n in xpath.SIZES:
        yield ['size', n]
    for f in range(2):
        n = len(list(xpath.contexts(FIX[f])))
        for i in range(n):
            for sp in range(len(SPACES)):
                if sp and tier == 'quick' and (f or i != 3):
                    continue
                for k in range(len(BASES)):
                    yield [f, i, sp, ['pred', k]]
                    yield [f, i, sp, ['fn', k]]
                    yield [f, i, sp, ['nest', k]]
                for k in range(len(ALTS)):
                    yield [f, i, sp, ['union', k]]


def sizes(n, ctx):
    """Many predicates, alternatives, levels and results; long values."""
    xc = xpath.big(n)
    g = xc['tiers']
    T = P('', 'tier')
    es = [with_preds(T, [('ne', P('', '@id'), 't%d' % k) for k in range(n)]),
          with_preds(T, [('ne', P('', '@id'), 't%d' % k) for k in range(n - 1)]),
          with_preds(T, [('ex', P('', '@id'), '')] * n + [('eq', P('', '@id'), 't1')]),
          with_preds(T, [('eq', P('', 'item', 'text()'), 'v%d' % (n - 1))]),
          with_preds(T, [('eq', P('', '..', 'tier', '@id'), 't%d' % (n - 1))]),
          with_preds(T, [('eq', P('', '..', 'tier', '@id'), 't%d' % n)]),
          P('', U(*[with_preds(T, [('eq', P('', '@id'), 't%d' % (n - 1 - k))])
                    for k in range(n)]), '@id'),
          P('', '.', U(*[P('', 'nosuch')] * (n - 1) + [T]), '@id'),
          P('', 'tier', 'item', 'text()'), P('', 'tier', U(P('', '@id'), P('', '@type')))]
    m = min(n, 33)      # nesting
    u, q = P('', 'tier'), P('', 'item')
    for k in range(m):
        u = P('', U(u) if k % 2 else U(u, P('', 'nosuch')))
        q = P('', '..', with_preds(P('', 'tier' if k % 2 else '*'), [('ex', q, '')])[1][0][1:]) \
            if k < 1 else with_preds(P('', '.'), [('ex', q, '')])
    es += [u, plus(u, '@id'), with_preds(T, [('ex', q, '')])]
    for e in es:
        r = xpath.compare(xp, e, 'tiers', g, '', Violation)
        ctx.ev(hash((n, xpath.render(e))), bool(r))
    t = xc['items']['is']
    for e in [P('', U(P('', 'item')), 'value()'), P('', 'item', 'referent()', '@id'),
              P('', with_preds(P('', 'item'), [('eq', P('', '@id'), 'i0')])[1][0][1:],
                'referrer()', '@id'),
              P('', 'item', F('referent', *['alignment'] * n), '@id')]:
        r = xpath.compare(xp, e, 'items', t, '', Violation)
        ctx.ev(hash((n, xpath.render(e))), bool(r))
    for k in (n, n * 7):
        for v in ('x' * k, 'x' * k + '"', '\\' * k, ' ' * k, '][' * k, 'x|' * k):
            for w in (v, v + 'y', v[:-1]):
                e = with_preds(P('', 'item'), [('eq', P('', 'text()'), w)])
                it = build(tier('t', item('a', v), item('b', v[:-1]), item('c', v + 'y')))
                r = xpath.compare(xp, e, 'texts', it, '', Violation)
                ctx.ev(hash((k, w, v)), bool(r))
    ctx.out('many')


def run(case, ctx):
    if case[0] == 'size':
        return sizes(case[1], ctx)
    f, i, sp, kind = case
    xc = FIX[f]
    name, obj = list(xpath.contexts(xc))[i]
    r = None
    for e in expressions(kind, ctx.tier):
        r = xpath.compare(xp, e, name, obj, SPACES[sp], Violation)
        if r is not None:
            ctx.ev(hash((f, i, xpath.render(e, SPACES[sp]))), bool(r))
            ctx.out('%s: %s' % (kind[0], 'empty' if not r else
                                '1 result' if len(r) == 1 else 'several'))
    if r and i < 3:
        ctx.sample({'start': name, 'path': xpath.render(e, SPACES[sp])})


FIX = xpath.fixtures()
