"""C24: sorting orders by the given keys and changes nothing else."""
import itertools
import os
import unicodedata
from mc import cli, xmlref
from mc.core import Violation
from mc.dom import (corpus, igt, tier, item, metadata, meta, mc, norm, snap, diff, full_igt)
from mc.props import c13
from xigt.codecs import xigtxml
from xigt.scripts import xigt_sort

ID = 'C24'
LEVEL = 'exploration'
IMPORTS = ('xigt', 'xigt.scripts.xigt_sort')
RULE = ('all sequences of up to 3 (thorough 4) igts, tiers and items over 12 key values '
        '(missing, empty, numbers, leading zeros, letters of both cases, mixed words and numbers) x key lists; all '
        'pairs (thorough triples) over 18 values with other digits and numerals; all '
        'pairs of key values over two keys x 3 members x key lists; up to 129 members, digits, letters and parts of keys and 33 keys; keys found through '
        'parents, children, references from other members, values of derived items; all '
        'tier reference graphs of C13 (2 and 3 tiers) x --tier-deps orders; all '
        'combinations of igt, tier and item options x --in-place; the printed or replaced '
        'document compared with a reference (stable natural sort, everything else equal); '
        'distinct = distinct (document, options)')
ASSUMPTIONS = ['key paths give strings']
VALS = [None, '', 'a', 'B', '2', '10', 'a2', 'a10', 'a2b', '02', 'a1b10', 'C']
FEW = [None, 'a', '2', '10', 'a2', 'b']
# numerals that are no digits, digits of other scripts, signs, spaces
ODD = ['1', '2', '\u0663', '\uff14', '\u00b2', '\u2163', '\u00bd', '\u4e09', '-1', '1.5', ' 1',
       '1_0', 'a\u00b2', 'a\u06630', '\u0967a', '+2', '1e3', '12345678901234567890']
NB = 24
SIZES = [8, 9, 10, 11, 12, 16, 17, 18, 20, 32, 33, 64, 65, 101, 129]


def sizes(n, ctx, d):
    """Many members, long numbers, long texts, many parts, many keys."""
    for level in range(3):
        fams = [['k%d' % (n - i) for i in range(n)], ['%d' % (i * 7 % n) for i in range(n)],
                [str(i % 3) for i in range(n)], [chr(65 + i * 5 % 26) for i in range(n)],
                ['9' * n, '9' * (n - 1) + '8', '1' + '0' * n, '9' * n],
                ['x' + '1' * n + '.2', 'x' + '1' * n + '.1', 'x' + '0' * n + '1'],
                ['a' * n + 'c', 'a' * n + 'b', 'a' * (n + 1), 'a' * n],
                ['a1' * n + 'a3', 'a1' * n + 'a2', 'a01' * n + 'a1', 'a1' * n],
                ['1.' * n + '3', '1.' * n + '10', '1.' * n + '2']]
        for f, vs in enumerate(fams):
            s = wrap(level, [member(level, i, k=v) for i, v in enumerate(vs)])
            want = reordered(s, level, lambda x: [x['attrs'].get('k') if x.get('attrs')
                                                  else None])
            execute(s, [OPT[level], '@k'], ctx, d, want, ('size', n, level, f))
        if n < 34:
            ks = ['k%d' % k for k in range(n)]
            s = wrap(level, [member(level, i, **{k: str(int(j == n - 1) * (5 - i) + 2)
                                                 for j, k in enumerate(ks)})
                             for i in range(4)])
            want = reordered(s, level, lambda x: [(x.get('attrs') or {}).get(k) for k in ks])
            execute(s, [a for k in ks for a in (OPT[level], '@' + k)], ctx, d, want,
                    ('keys', n, level))


def natural(v):
    """'a10b' -> ['a', 10, 'b'] with alternating kinds."""
    out, cur, num = [], '', False
    for c in v or '':
        d = unicodedata.category(c) == 'Nd'
        if d != num:
            out.append(int(cur) if num else cur)
            cur, num = '', d
        cur += c
    out.append(int(cur) if num else cur)
    if num:
        out.append('')
    return out


def order(keys):
    """Stable order of indices by lists of key values."""
    return sorted(range(len(keys)), key=lambda i: [natural(v) for v in keys[i]])


def at(**kw):
    return {k: v for k, v in kw.items() if v is not None}


def execute(s, args, ctx, d, want, what):
    p = os.path.join(d, 'in.xml')
    doc = xmlref.write(s).encode()
    for place in ([], ['--in-place']):
        with open(p, 'wb') as fh:
            fh.write(doc)
        r = cli.run(xigt_sort.main, args + place + [p], both=False)
        if r.exc is not None or r.code:
            raise Violation('%r %r: %r' % (what, args, r))
        with open(p, 'rb') as fh:
            data = fh.read()
        if place:
            if r.out.strip():
                raise Violation('--in-place prints %r' % r.out[:300])
            got = xigtxml.loads(data)
        else:
            if data != doc:
                raise Violation('the input file is changed without --in-place')
            got = xigtxml.loads(r.out)
        df = diff(want, snap(got))
        if df:
            raise Violation('%r %r: %s\nexpected order %r, got %r' % (
                what, args + place, df, ids(want), ids(snap(got))))
        if os.listdir(d) != ['in.xml']:
            raise Violation('extra files %r' % os.listdir(d))
        ctx.ev((what, tuple(args), bool(place)))
    ctx.out('sorted')


def ids(n):
    return [(k.get('id'), ids(k)) if k.get('kids') else k.get('id') for k in n['kids']]


def reordered(s, level, keyfn, path=()):
    """norm(s) with the kids at a level (0 igts, 1 tiers, 2 items) sorted."""
    n = norm(s)

    def go(x, sx, lv):
        if lv == level:
            o = order([keyfn(k) for k in sx['kids']])
            x['kids'] = [x['kids'][i] for i in o]
        else:
            for c, sc in zip(x['kids'], sx['kids']):
                go(c, sc, lv + 1)
    go(n, s, 0)
    return n


def member(level, i, **attrs):
    if level == 0:
        return igt('m%d' % i, tier('t', item('x', 'v')), attrs=at(**attrs))
    if level == 1:
        return tier('m%d' % i, item('m%dx' % i, 'v'), attrs=at(**attrs))
    return item('m%d' % i, 'v%d' % i, attrs=at(**attrs))


def wrap(level, members):
    other = [metadata(meta(mc('k', text='2'), type='n'), type='xigt-meta')]
    if level == 0:
        return corpus(*members, id='c', md=other, attrs={'q': '1'})
    if level == 1:
        return corpus(igt('g', *members, md=other), igt('h', *reversed(members)))
    return corpus(igt('g', tier('t', *members, md=other, type='z'),
                      tier('u', *[dict(m, id=m['id'] + 'u') for m in reversed(members)])))


OPT = ['--igt-key', '--tier-key', '--item-key']


def singles(tier):
    for level in range(3):
        for n in range(5 if tier == 'thorough' else 4):
            for vs in itertools.product(VALS if n < 4 else FEW, repeat=n):
                yield ('one', level, vs)
        for n in (2, 3) if tier == 'thorough' or level == 0 else (2,):
            for vs in itertools.product(ODD if n == 2 or tier == 'thorough' else ODD[::3],
                                        repeat=n):
                yield ('one', level, vs)
        for n in (2, 3):
            for vs in itertools.product(itertools.product(FEW[:3] if n == 3 and
                                                          tier == 'quick' else FEW,
                                                          repeat=2), repeat=n):
                yield ('two', level, vs)


def cases(tier):
    for b in range(NB):
        yield ['keys', b]
    for n in SIZES:
        yield ['size', n]
    yield ['paths']
    for f in ['2', '3']:
        for b in range(NB):
            yield ['deps', f, b]
    yield ['combine']


def run(case, ctx):
    d = ctx.tmp()
    if case[0] == 'size':
        return sizes(case[1], ctx, d)
    if case[0] == 'keys':
        for n, (k, level, vs) in enumerate(singles(ctx.tier)):
            if n % NB != case[1]:
                continue
            if k == 'one':
                s = wrap(level, [member(level, i, k=v) for i, v in enumerate(vs)])
                lists = [['@k']] if n % 4 else [['@k'], ['@none'], ['@none', '@k']]
            else:
                s = wrap(level, [member(level, i, k=v, j=w) for i, (v, w) in enumerate(vs)])
                lists = [['@k', '@j'], ['@j', '@k']]
            for l in lists:
                want = reordered(s, level, lambda x: [x['attrs'].get(p[1:])
                                                      if x.get('attrs') else None for p in l])
                args = []
                for p in l:
                    args += [OPT[level], p]
                execute(s, args, ctx, d, want, (k, level, vs))
        ctx.sample([k, level, vs])
    elif case[0] == 'paths':
        paths(ctx, d)
    elif case[0] == 'deps':
        deps(case[1], case[2], ctx, d)
    else:
        combine(ctx, d)


def paths(ctx, d):
    """Keys that are found elsewhere."""
    for perm in itertools.permutations(range(3)):
        # tiers by what refers to them, by parents' and children's data
        ts = [tier('m%d' % i, item('m%dx' % i, 'b10 b9 b1'.split()[i], type='T%d' % (2 - i)),
                   md=[metadata(meta(text='z%d' % (10 - i)), type='xigt-meta')],
                   attrs={'alignment': 'm%d' % ((i + 1) % 3)}) for i in range(3)]
        s = corpus(igt('g', *[ts[i] for i in perm], attrs={'k': '1'}))
        for path, key in [
                ('item/value()', lambda i: 'b10 b9 b1'.split()[i]),
                ('item/text()', lambda i: 'b10 b9 b1'.split()[i]),
                ('item/@type', lambda i: 'T%d' % (2 - i)),
                ('metadata/meta/text()', lambda i: 'z%d' % (10 - i)),
                ('referrer("alignment")/@id', lambda i: 'm%d' % ((i - 1) % 3)),
                ('referrer()/item/value()', lambda i: 'b10 b9 b1'.split()[(i - 1) % 3]),
                ('referent()/@id', lambda i: 'm%d' % ((i + 1) % 3)),
                ('referent("alignment")/item/text()',
                 lambda i: 'b10 b9 b1'.split()[(i + 1) % 3]),
                ('../@k', lambda i: '1'), ('../tier/@id', lambda i: 'm%d' % perm[0]),
                ('//item/@type', lambda i: '1'),
                ('(@none|item/@id)', lambda i: 'm%dx' % i),
                ('item[value()="b9"]/@id', lambda i: 'm1x' if i == 1 else None),
                ('.[../tier/@id="m0"]/@id', lambda i: 'm%d' % i)]:
            want = reordered(s, 1, lambda x: [key(int(x['id'][1]))])
            execute(s, ['--tier-key=' + path], ctx, d, want, ('path', perm, path))
        # items by value; referring items
        its = [item('i%d' % i, attrs={'segmentation': 'p1[%d:%d]' % (2 - i, 3 - i),
                                      'alignment': 'i%d' % ((i + 1) % 3)}) for i in range(3)]
        s = corpus(igt('g', tier('p', item('p1', 'abc')),
                       tier('t', *[its[i] for i in perm],
                            attrs={'segmentation': 'p', 'alignment': 't'})))
        for path, key in [('value()', lambda i: 'abc'[2 - i]),
                          ('referrer("alignment")/@id', lambda i: 'i%d' % ((i - 1) % 3)),
                          ('referent("alignment")/value()',
                           lambda i: 'abc'[2 - (i + 1) % 3]),
                          ('../@alignment', lambda i: 't'),
                          ('@segmentation', lambda i: 'p1[%d:%d]' % (2 - i, 3 - i)),
                          ('../item/@id', lambda i: 'x')]:
            want = reordered(s, 2, lambda x: [key(int(x['id'][1])) if x['id'][0] == 'i'
                                              else None])
            execute(s, ['--item-key=' + path], ctx, d, want, ('path', perm, path))
        # igts by what they contain
        gs = [dict(full_igt('g%d' % i), type='T%d' % (i % 2)) for i in range(3)]
        for i, g in enumerate(gs):
            g['kids'][0]['kids'][0]['text'] = '%d b cd' % (30 - i)
        s = corpus(*[gs[i] for i in perm])
        for path, key in [('tier[@type="phrases"]/item/value()',
                           lambda i: '%d b cd' % (30 - i)), ('@type', lambda i: 'T%d' % (i % 2)),
                          ('tier[@type="words"]/item/value()', lambda i: str(30 - i)),
                          ('//igt/@id', lambda i: 'x'), ('../igt/@type', lambda i: 'x'),
                          ('@id', lambda i: 'g%d' % i)]:
            want = reordered(s, 0, lambda x: [key(int(x['id'][1]))])
            execute(s, ['--igt-key=' + path], ctx, d, want, ('path', perm, path))


def deps(fam, b, ctx, d):
    for n, g in enumerate(c13.graphs(fam)):
        if n % NB != b or (fam == '3' and not ctx.thorough and n % 3):
            continue
        k = len(g)
        names = c13.IDS[:k]
        refs = {names[i]: {ra: (names[t] if t != 'gone' else 'gone') for ra, t in a}
                for i, a in enumerate(g)}
        for pref in [('segmentation', 'alignment', 'content'), ('content', 'alignment')]:
            want_order, bad = c13.reference(names, refs, pref)
            if bad:
                continue
            s = corpus(igt('g', *[tier(i, item(i + '1', 'v'), attrs=refs[i]) for i in names]),
                       igt('h', *[tier(i, attrs={}) for i in names]))
            want = norm(s)
            by = {t['id']: t for t in want['kids'][0]['kids']}
            want['kids'][0]['kids'] = [by[i] for i in want_order]
            execute(s, ['--tier-deps', (',' if n % 2 else ' , ').join(pref)], ctx, d, want,
                    ('deps', g))


def combine(ctx, d):
    s = corpus(*[igt('g%d' % (3 - i), *[tier(
        t, *[item('%s%d' % (t, 3 - j), 'v%d' % (j % 2)) for j in range(3)],
        type='T%d' % n, attrs={'segmentation': 'a'} if t == 'b' else {})
        for n, t in enumerate(('b', 'c', 'a'))], attrs={'k': str(i % 2)}) for i in range(3)],
        id='c', md=[metadata(meta(text='q'))])
    for io in ([], ['@id'], ['@k', '@id']):
        for to in ([], ['@id'], ['@type'], 'deps'):
            for no in ([], ['@id'], ['value()'], ['value()', '@id']):
                args = []
                for p in io:
                    args += ['--igt-key', p]
                for p in to if to != 'deps' else []:
                    args += ['--tier-key', p]
                if to == 'deps':
                    args += ['--tier-deps=segmentation']
                for p in no:
                    args += ['--item-key', p]
                want = norm(s)
                get = lambda x, p: x['text'] if p == 'value()' else x['id'] if p == '@id' \
                    else x['type'] if p == '@type' else x['attrs'].get('k')
                want['kids'] = [want['kids'][k] for k in order(
                    [[get(x, p) for p in io] for x in want['kids']])]
                for g in want['kids']:
                    ts = g['kids']
                    if to == 'deps':
                        g['kids'] = [ts[1], ts[2], ts[0]]
                    else:
                        g['kids'] = [ts[k] for k in order([[get(x, p) for p in to]
                                                           for x in ts])]
                    for t in g['kids']:
                        t['kids'] = [t['kids'][k] for k in order(
                            [[get(x, p) for p in no] for x in t['kids']])]
                execute(s, args, ctx, d, want, ('combine',))
