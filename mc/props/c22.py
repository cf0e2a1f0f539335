"""C22: the validator reports exactly the rules that are broken."""
import itertools
import os
import re
from collections import Counter
from mc import cli, sizes, xmlref
from mc.core import Violation
from mc.dom import corpus, igt, tier, item
from xigt.scripts import xigt_validate

ID = 'C22'
LEVEL = 'exploration'
IMPORTS = ('xigt', 'xigt.scripts.xigt_validate')
RULE = ('documents: all combinations of present and absent ids and types; all tier and item '
        'id collisions; all combinations of tier references (valid, self, missing, none) x '
        'item reference expressions (38 syntax trees: fractional ranges, ranges inside, at, beyond the end, '
        'overlapping, touching, repeated, missing ids, lists) x referred tiers (empty, '
        'texts, missing, derived, unresolvable and cyclic values) for each reference '
        'attribute and pairs of them; all sequences of up to 2 (thorough 3) files out of 14, '
        'of up to 4 out of 4, many files with one that differs; n igts, tiers, items, references '
        'or ranges (n up to 129) with one or two faults at every (boundary) position, '
        'kinds (valid, broken rules, unloadable in several ways, other encodings, '
        'repeated corpus ids); x verbosity x color; printed report and exit status compared '
        'with a reference validator on the document; distinct = distinct (document, options)')
ASSUMPTIONS = ['ranges are not negative; without -q']
ERR, WARN, INFO = 'MUST', 'SHOULD', 'MAY'
RAS = ('alignment', 'content', 'segmentation')
NB = 24


# --------------------------------------------------------- expressions

def W(i, *ranges):
    return (i, ranges)


def text(e):
    """[(delim, (id, ranges)), ...] -> string"""
    out = []
    for d, (i, rs) in e:
        out.append(d + i)
        if rs:
            out.append('[%s]' % ','.join('%s:%s' % r for r in rs))
    return ''.join(out)


def E(*parts):
    out = []
    for k, p in enumerate(parts):
        if isinstance(p, tuple) and p[0] in ('+', ' ', ',', '  '):
            out.append(p)
        else:
            out.append(('' if k == 0 else ',', p))
    return out


EXPRS = [E(W('a1')), E(W('a2')), E(W('a1'), W('a2')), E(W('a1', (0, 2))),
         E(W('a1', (0, 4))), E(W('a1', (0, 5))), E(W('a1', (4, 4))), E(W('a1', (5, 5))),
         E(W('a1', (0, 2), (2, 4))), E(W('a1', (0, 3), (2, 4))), E(W('a1', (2, 4), (0, 3))),
         E(W('a1', (0, 1)), W('a1', (1, 2))), E(W('a1', (0, 2)), ('+', W('a1', (1, 3)))),
         E(W('a1'), W('a1')), E(W('a1'), W('a1', (0, 1))), E(W('a1', (1, 2)), W('a1')),
         E(W('zz')), E(W('a1'), W('zz')), E(W('zz', (0, 1))), E(W('zz'), ('+', W('yy'))),
         E(W('a1'), (' ', W('a2'))), E(W('a1', (0, 1)), (' ', W('a1', (0, 1)))),
         E(W('a1'), ('  ', W('zz'))), E(W('a1', (3, 1))), E(W('a1', (6, 1))),
         E(W('a2', (0, 1)), W('a1', (0, 1)), W('a2', (0, 1))), E(W('b1')),
         E(W('a1', (0, 9)), W('a2', (3, 9))), E(W('a1', (0, 2)), W('a2', (0, 2))),
         E(W('a1', (0, 1), (0, 1), (0, 1))), E(W('a1', (0, 2)), W('a2', (0, 2)), W('a1', (1, 2)),
         W('a2', (1, 2))), E(W('a2'), W('a1'), W('a1'), W('a2')),
         E(W('a')), E(W('a1'), W('a')), E(W('b'), W('a', (0, 1))), E(W('g')), E(W('c')),
         E(W('a1', (0.5, 1))), E(W('a1', (0, 2.5), (0, 1), (0, 1))), E(W('a2', (1.5, 9), (0, 1)))]


def targets():
    """Variants of the referred tier a (with helper tiers)."""
    def t(*kids, **kw):
        return tier('a', *kids, type='x', **kw)
    yield 'texts', [t(item('a1', 'abcd'), item('a2', 'xyz'))]
    yield 'empty', [t()]
    yield 'no value', [t(item('a1'), item('a2', 'xyz'))]
    yield 'one', [t(item('a1', 'ab'))]
    h = tier('h', item('h1', 'pqrstu'), type='x')
    sg = {'segmentation': 'h'}
    yield 'derived', [h, t(dict(item('a1'), expr={'segmentation': E(W('h1', (1, 5)))}),
                           dict(item('a2'), expr={'segmentation': E(W('h1', (0, 3)))}),
                           attrs=sg)]
    yield 'fractions', [h, t(dict(item('a1'), expr={'segmentation': E(W('h1', (0.5, 2)))}),
                             item('a2', 'xyz'), attrs=sg)]
    yield 'unresolvable', [h, t(dict(item('a1'), expr={'segmentation': E(W('h9', (0, 2)))}),
                                item('a2', 'xyz'), attrs=sg)]
    yield 'dangling tier', [t(dict(item('a1'), expr={'content': E(W('h1'))}),
                              item('a2', 'xyz'), attrs={'content': 'nowhere'})]
    yield 'not on tier', [h, t(dict(item('a1'), expr={'content': E(W('h1'))}),
                               item('a2', 'xyz'))]
    yield 'cyclic', [t(dict(item('a1'), expr={'content': E(W('a1'))}),
                       dict(item('a2'), expr={'content': E(W('a1', (0, 1)))}),
                       attrs={'content': 'a'})]


TARGETS = list(targets())


def finish(s):
    """Turn the expression trees into attribute values (for writing)."""
    s = dict(s)
    if 'expr' in s:
        s['attrs'] = dict(s.get('attrs') or {},
                          **{k: text(e) for k, e in s['expr'].items()})
    if 'kids' in s:
        s['kids'] = [finish(c) for c in s['kids']]
    return s


# ------------------------------------------------------ reference validator

class Broken(Exception):
    pass


def value(g, t, it, depth=0):
    if depth > 20:
        raise Broken
    if it.get('text') is not None:
        return it['text']
    ex = it.get('expr', {})
    for ra in ('content', 'segmentation'):
        if ra in ex:
            ref = (t.get('attrs') or {}).get(ra)
            rt = next((x for x in g['kids'] if x.get('id') == ref), None)
            if ref is None or rt is None:
                raise Broken
            out = []
            for d, (i, rs) in ex[ra]:
                out.append(' ' if d == ',' else '')
                x = next((y for y in rt['kids'] if y.get('id') == i), None)
                if x is None:
                    raise Broken
                v = value(g, rt, x, depth + 1) or ''
                if any(isinstance(x, float) for r in rs for x in r):
                    raise Broken
                out += [' '.join(v[a:b] for a, b in rs)] if rs else [v]
            return ''.join(out)
    return None


def length(g, t, it):
    try:
        return len(value(g, t, it) or '')
    except Broken:
        return None


def expected(s, corpus_ids):
    """{path: Counter of (modal, kind, details)}"""
    out = {}

    def rep(path, modal, kind, details=()):
        out.setdefault(path, Counter())[(modal, kind, tuple(sorted(details)))] += 1

    if s.get('id') is None:
        rep((), INFO, 'id')
    elif s['id'] in corpus_ids:
        rep((), ERR, 'unique')
    seen_igt = set()
    for i, g in enumerate(s['kids']):
        if g.get('id') is None:
            rep((i,), WARN, 'id')
        elif g['id'] in seen_igt:
            rep((i,), ERR, 'unique')
        seen_igt.add(g.get('id'))
        tids = {t.get('id') for t in g['kids']} - {None}
        seen = set()
        for j, t in enumerate(g['kids']):
            p = (i, j)
            at = t.get('attrs') or {}
            if t.get('id') is None:
                rep(p, WARN, 'id')
            if not t.get('type'):
                rep(p, WARN, 'type')
            missing = {ra for it in t['kids'] for ra in it.get('expr', {}) if ra not in at}
            if missing:
                rep(p, ERR, 'specified', missing)
            for ra in RAS:
                if ra in at and at[ra] not in tids:
                    rep(p, ERR, 'tier', [ra])
            for k, it in enumerate(t['kids']):
                q = (i, j, k)
                if it.get('id') is None:
                    rep(q, WARN, 'id')
                elif it['id'] in seen:
                    rep(q, ERR, 'unique')
                seen.add(it.get('id'))
                for ra, e in it.get('expr', {}).items():
                    rt = next((x for x in g['kids'] if x.get('id') == at.get(ra)
                               and x.get('id') is not None), None)
                    if rt is None:
                        continue
                    byid = {x['id']: x for x in rt['kids'] if x.get('id') is not None}
                    gone = {n for _, (n, _) in e if n not in byid}
                    if gone:
                        rep(q, ERR, 'items', gone)
                    beyond, cover = [], {}
                    for _, (n, rs) in e:
                        if n not in byid:
                            continue
                        ln = length(g, rt, byid[n])
                        for a, b in rs:
                            whole = isinstance(a, int) and isinstance(b, int)
                            if not whole or ln is not None and max(a, b) > ln:
                                beyond.append('%s[%s:%s]' % (n, a, b))
                            if not whole:
                                continue
                            cover.setdefault(n, Counter()).update(range(a, b))
                        if not rs:
                            cover.setdefault(n, Counter()).update(range(ln or 0))
                    if beyond:
                        rep(q, WARN, 'spans', beyond)
                    over = [n for n, c in cover.items() if any(v > 1 for v in c.values())]
                    if over:
                        rep(q, WARN, 'overlap', over)
    return out


# --------------------------------------------------------- reading reports

KINDS = [('specify an id', 'id'), ('specify a type', 'type'), ('be unique', 'unique'),
         ('select an available <tier>', 'tier'), ('specified on their <tier>', 'specified'),
         ('select available <item>', 'items'), ('select spans within', 'spans'),
         ('NOT overlap', 'overlap')]
HEAD = re.compile(r'^( *)(corpus|igt|tier|item) (\d+) ?(?:\(id: "(.*)"\))?$')
LEVELS = ['corpus', 'igt', 'tier', 'item']


def parse(out):
    """-> [(file index, {path: Counter}, {path: id})], [failed file names]"""
    docs, failed, path, cur = [], [], (), None
    for line in out.split('\n'):
        line = re.sub('\033\\[[0-9;]*m', '', line)
        m = HEAD.match(line)
        if m:
            lv = LEVELS.index(m.group(2))
            if lv == 0:
                cur = (int(m.group(3)), {}, {})
                docs.append(cur)
                path = ()
            else:
                path = path[:lv - 1] + (int(m.group(3)),)
                if len(path) != lv or len(m.group(1)) != lv:
                    raise Violation('report nesting is wrong at %r:\n%s' % (line, out))
            cur[2][path] = m.group(4)
            continue
        m = re.match(r'^ *\* (.*)$', line)
        if m:
            msg = m.group(1)
            kind = [k for t, k in KINDS if t in msg]
            modal = [x for x in (ERR, WARN, INFO) if ' %s ' % x in msg]
            if len(kind) != 1 or len(modal) != 1:
                raise Violation('message not understood: %r' % msg)
            det = ()
            if kind[0] in ('specified', 'items', 'spans', 'overlap'):
                det = tuple(sorted(set(x for x in msg.rsplit(': ', 1)[1].split(', '))
                                   if kind[0] != 'spans' else
                                   msg.rsplit(': ', 1)[1].split(', ')))
            elif kind[0] == 'tier':
                det = (re.search('"(.*?)"', msg).group(1),)
            cur[1].setdefault(path, Counter())[(modal[0], kind[0], det)] += 1
            continue
        m = re.match(r'^Corpus (\d+) \((.*)\) failed to load', line)
        if m:
            failed.append((int(m.group(1)), m.group(2)))
    return docs, failed


def at_level(exp, modals):
    r = {}
    for p, c in exp.items():
        c2 = Counter({k: v for k, v in c.items() if k[0] in modals})
        if c2:
            r[p] = c2
    return r


OPTS = [([], (ERR,)), (['-v'], (ERR, WARN)), (['-vv'], (ERR, WARN, INFO)),
        (['-v', '--color'], (ERR, WARN)), (['-q'], ()), (['--verbose'], (ERR, WARN)),
        (['--quiet', '--color'], ()), (['-v', '--verbose'], (ERR, WARN, INFO))]


def node_id(s, p):
    for k in p:
        s = s['kids'][k]
    return s.get('id')


def check(files, opts, ctx, key):
    """files: [(path, spec or None if it cannot be loaded)]"""
    args, modals = opts
    r = cli.run(xigt_validate.main, args + [f for f, _ in files])
    if r.exc is not None:
        raise Violation('validator crashes on %r: %r' % (key, r))
    docs, failed = parse(r.out)
    ids = set()
    want, bad = [], []
    for i, (f, s) in enumerate(files):
        if s is None:
            bad.append((i, f))
            continue
        e = at_level(expected(s, ids), modals)
        if s.get('id') is not None:
            ids.add(s['id'])
        if e:
            want.append((i, e, s))
    if failed != bad:
        raise Violation('files reported as unloadable: %r, expected %r\n%s'
                        % (failed, bad, r.out))
    if [d[0] for d in docs] != [w[0] for w in want]:
        raise Violation('corpora with reports: %r, expected %r for %r\n%s' % (
            [d[0] for d in docs], [w[0] for w in want], key, r.out))
    for (i, got, gotids), (_, exp, s) in zip(docs, want):
        if got != exp:
            p = next(p for p in sorted(set(got) | set(exp)) if got.get(p) != exp.get(p))
            raise Violation('%r %r: at %r reported %r, expected %r\n%s' % (
                key, args, p, dict(got.get(p, {})), dict(exp.get(p, {})), r.out))
        heads = {p[:n] for p in exp for n in range(len(p) + 1)}
        if set(gotids) != heads:
            raise Violation('headings %r, expected %r' % (sorted(gotids), sorted(heads)))
        for p, v in gotids.items():
            if v != node_id(s, p):
                raise Violation('heading of %r gives id %r' % (p, v))
    ok = not want and not bad
    if r.code != (0 if ok else 1):
        raise Violation('exit status %r for %s corpora (%r %r)\n%s' % (
            r.code, 'valid' if ok else 'invalid', key, args, r.out))
    ctx.ev((key, args))
    ctx.out('exit %d' % r.code)


# ------------------------------------------------------------- documents

def fields():
    for cid, gid, tid, iid, ty in itertools.product((None, 'c'), (None, 'g'), (None, 't'),
                                                    (None, 'i'), (None, 'x', '')):
        yield corpus(igt(gid, tier(tid, item(iid, 'a'), item('k', 'b'), type=ty)), id=cid)
        if iid:
            yield corpus(igt(gid, tier(tid, type=ty), tier('u', item(iid), type=ty)), id=cid)
            yield corpus(igt(gid, tier(tid, type=ty, attrs={'alignment': 'u'}),
                             tier('u', attrs={'content': tid or 'u'}, type='x')), id=cid)
    for ids in itertools.product((None, 'g', 'h'), repeat=3):
        yield corpus(*[igt(i, tier('t', type='x')) for i in ids], id='c')
    for ids in itertools.product((None, 'g', 'h'), repeat=4):
        if None in ids or ids[0] != ids[1]:
            if ids[2] is None or ids[2] != ids[3]:
                yield corpus(igt('g', tier('t', item(ids[0], 'a'), type='x'),
                                 tier('u', item(ids[1], 'a'), type='x'),
                                 tier('v', item(ids[2], 'a'), item(ids[3]), type='x')), id='c')
    yield corpus(id='c')
    yield corpus()
    yield corpus(igt('g'), igt('h', tier('t', type='x')), id='c')


def refs(big):
    for n, (tn, tiers) in enumerate(TARGETS):
        for ra in RAS:
            for tref in ('a', 'b', 'gone', None):
                for e in EXPRS:
                    yield corpus(igt('g', *(tiers + [tier(
                        'b', dict(item('b1'), expr={ra: e}), dict(item('b2', 'q')), type='x',
                        attrs={ra: tref} if tref else None)])), id='c')
            # no ids
            for tref in ('0', '1', '-1', ' 0', '00', 'a ', 'a[0:1]', 'a1', 'g', 'A', '7'):
                for e in EXPRS[n % 7::7]:
                    yield corpus(igt('g', *(tiers + [tier(
                        'b', dict(item('b1'), expr={ra: e}), dict(item('b2', 'q')), type='x',
                        attrs={ra: tref})])), id='c')
        # two items, two reference attributes, referring tier first
        few = EXPRS if big else EXPRS[::5]
        for ra, rb in (('alignment', 'content'), ('content', 'alignment')):
            for e, f in itertools.product(few, few):
                for trefs in (('a', 'a'), ('a', 'gone'), ('a', None), ('b', 'a')):
                    yield corpus(igt('g', *([tier(
                        'b', dict(item('b1'), expr={ra: e, rb: f}),
                        dict(item('b2', 'q'), expr={ra: f}), type='x',
                        attrs={k: v for k, v in zip((ra, rb), trefs) if v})] + tiers)),
                        id='c')


def kinds():
    good = corpus(igt('g', tier('t', item('i', 'a'), type='x')), id='c1')
    w = lambda s: xmlref.write(finish(s)).encode()
    yield 'good', w(good), good
    yield 'noid', w(dict(good, id=None)), dict(good, id=None)
    warn = corpus(igt(None, tier('t', item('i', 'a'))), id='c2')
    yield 'warn', w(warn), warn
    err = corpus(igt('g', tier('t', item('i', 'a'), type='x', attrs={'alignment': 'q'})),
                 id='c3')
    yield 'err', w(err), err
    yield 'sameid', w(dict(err, id='c1')), dict(err, id='c1')
    u = xmlref.write(good)
    u16 = ('<?xml version="1.0" encoding="utf-16"?>' + u.split('?>')[-1]).encode('utf-16')
    yield 'utf16', u16, good
    uml = dict(good, kids=[igt('g', tier('t', item('i', '\u00e9\u3042'), type='x'))], id='c4')
    yield 'nonascii', w(uml), uml
    yield 'malformed', b'<xigt-corpus><igt></xigt-corpus>', None
    yield 'truncated', w(good)[:-20], None
    yield 'empty', b'', None
    yield 'root', b'<corpus/>', None
    yield 'duptier', b'<xigt-corpus><igt id="g"><tier id="t"/><tier id="t"/></igt></xigt-corpus>', None
    yield 'dupitem', (b'<xigt-corpus><igt id="g"><tier id="t"><item id="i"/><item id="i"/>'
                      b'</tier></igt></xigt-corpus>'), None
    yield 'badid', b'<xigt-corpus><igt id="h"/><igt id="1"/></xigt-corpus>', None


FILES = list(kinds())
MANY = [i for i, k in enumerate(FILES) if k[0] in ('good', 'noid', 'err', 'malformed')]


def cases(tier):
    for b in range(NB):
        yield ['fields', b]
        yield ['refs', b]
    for n in sizes.SIZES if tier == 'thorough' else LADDER:
        for part in range(sizes.parts(n)):
            yield ['size', n, part]
    for i in range(len(FILES)):
        yield ['files', i]
    for i in MANY:
        yield ['many', i]


LADDER = (5, 9, 10, 11, 16, 17, 33, 65, 101, 129)


def large(n, part):
    """Valid documents with n igts, tiers, items, references or ranges, with one or two
    faults at every (boundary) position."""
    tx = lambda i, *kids, **kw: tier(i, *kids, type='x', **kw)
    ps = sizes.positions(n, part)
    yield corpus(*[igt('g%d' % i, tx('t', item('a', 'x'))) for i in range(n)], id='c')
    for p in ps:
        for q in {None, 0, n // 2, n - 1}:
            bad = {p, q}
            # igts: no id, a fault inside
            yield corpus(*[igt('g%d' % i if i not in bad else None, tx('t', item('a', 'x')))
                           for i in range(n)], id='c')
            yield corpus(*[igt('g%d' % i, tier('t', item('a', 'x'),
                                               type='x' if i not in bad else None))
                           for i in range(n)], id='c')
            # tiers: no id, no type, reference to none
            yield corpus(igt('g', *[tx('t%d' % i if i not in bad else None, item('a%d' % i, 'x'))
                                    for i in range(n)]), id='c')
            yield corpus(igt('g', *[tier('t%d' % i, type='x' if i not in bad else None)
                                    for i in range(n)]), id='c')
            yield corpus(igt('g', *[tx('t%d' % i, attrs={
                'alignment': 't%d' % (p if i not in bad else n)}) for i in range(n)]), id='c')
            # items: no id, the id of an item of another tier
            yield corpus(igt('g', tx('t', *[item('a%d' % i if i not in bad else None, 'x')
                                            for i in range(n)])), id='c')
            yield corpus(igt('g', tx('t', *[item('a%d' % i, 'x') for i in range(n)]),
                             tx('u', *[item('%s%d' % ('a' if i in bad else 'b', i), 'x')
                                       for i in range(n)])), id='c')
            # references of n items, or n references of an item, or n ranges of one
            a = tx('a', *[item('a%d' % i, 'x%d' % i) for i in range(n)])
            for ra in RAS if q is None else RAS[:1]:
                for wrong in (W('zz'), W('a%d' % p, (0, 99)), W('a%d' % p, (0, 1), (0, 2))):
                    yield corpus(igt('g', a, tx('b', *[
                        dict(item('b%d' % i), expr={ra: E(W('a%d' % i, (0, 1)) if i not in bad
                                                          else wrong)})
                        for i in range(n)], attrs={ra: 'a'})), id='c')
                    yield corpus(igt('g', a, tx('b', dict(item('b1'), expr={ra: E(*[
                        W('a%d' % i, (1, 2)) if i not in bad else wrong for i in range(n)])}),
                        attrs={ra: 'a'})), id='c')
            long = tx('a', item('a1', 'x' * n))
            yield corpus(igt('g', long, tx('b', dict(item('b1'), expr={'alignment': E(W(
                'a1', *[(i, i + (2 if i in bad else 1)) for i in range(n)]))}),
                attrs={'alignment': 'a'})), id='c')
            yield corpus(igt('g', long, tx('b', dict(item('b1'), expr={'content': E(W(
                'a1', (0, p + 1), (p if q is None else q, n)))}),
                attrs={'content': 'a'})), id='c')


def run(case, ctx):
    d = ctx.tmp()
    if case[0] == 'size':
        f = os.path.join(d, 'f.xml')
        for s in large(*case[1:]):
            with open(f, 'wb') as fh:
                fh.write(xmlref.write(finish(s)).encode())
            check([(f, s)], OPTS[2], ctx, finish(s))
        return
    if case[0] in ('files', 'many'):
        paths = []
        for n, data, s in FILES:
            p = os.path.join(d, n + '.xml')
            with open(p, 'wb') as fh:
                fh.write(data)
            paths.append((p, s))
        if case[0] == 'many':
            # longer sequences of a few kinds, and many files
            for r in (2, 3) + ((4,) if ctx.thorough else ()):
                for rest in itertools.product(MANY, repeat=r):
                    sel = [case[1]] + list(rest)
                    check([paths[k] for k in sel], OPTS[1], ctx, [FILES[k][0] for k in sel])
            for n in (9, 10, 11, 33, 101):
                for other in MANY:
                    for at in (0, n // 2, n - 1):
                        sel = [case[1]] * n
                        sel[at] = other
                        check([paths[k] for k in sel], OPTS[1], ctx,
                              [FILES[case[1]][0], n, FILES[other][0], at])
            return
        for r in range(3 if ctx.thorough else 2):
            for rest in itertools.product(range(len(FILES)), repeat=r):
                sel = [case[1]] + list(rest)
                for o in OPTS:
                    check([paths[k] for k in sel], o, ctx, [FILES[k][0] for k in sel])
        return
    f = os.path.join(d, 'f.xml')
    for k, s in enumerate(fields() if case[0] == 'fields' else refs(ctx.thorough)):
        if k % NB != case[1]:
            continue
        with open(f, 'wb') as fh:
            fh.write(xmlref.write(finish(s)).encode())
        for o in OPTS if case[0] == 'fields' or ctx.thorough else OPTS[k % 8:k % 8 + 1] + OPTS[1:2]:
            check([(f, s)], o, ctx, finish(s))
        ctx.sample(finish(s))
