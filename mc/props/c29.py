"""C29: the [incr tsdb()] export gives one row per igt with the cells asked for."""
import itertools
import json
import os
from mc import cli, sizes, stubs, xmlref
stubs.install()
from mc.core import Violation
from mc.dom import corpus, igt, tier, item, metadata, meta, build, full_igt
from xigt import main as xigt_main
from xigt.exporters import itsdb as exporter
from xigt.scripts import xigt_export

ID = 'C29'
LEVEL = 'exploration'
IMPORTS = ('xigt', 'xigt.exporters.itsdb', 'xigt.scripts.xigt_export')
RULE = ('all igts with up to 3 tiers out of 12 and corpora of igts that lack an id, tiers or both (phrases and words: empty, texts, '
        'missing, empty and derived values) for the default cells; all sequences of up to 3 '
        '(thorough 4) cells out of 9 expressions; all start and skip values of a list; all '
        'sequences of up to 3 exports out of 4 configurations, each given again and again; '
        'n igts, tiers, words, cells or characters (n up to 129) with something else at every '
        '(boundary) position; ways of finding the relations file; through the command and the function; the rows '
        'passed on compared with a reference; distinct = distinct (corpus, configuration)')
ASSUMPTIONS = ['the delphin.itsdb library is replaced by a stand-in that records its arguments']
NB = 12

TIERS = [lambda n: tier('p%d' % n, type='phrases'),
         lambda n: tier('p%d' % n, item('p%d1' % n, 'first phrase'), item('p%d2' % n, 'second'),
                        type='phrases'),
         lambda n: tier('p%d' % n, item('p%d1' % n), item('p%d2' % n, 'second'), type='phrases'),
         lambda n: tier('p%d' % n, item('p%d1' % n, ''), type='phrases'),
         lambda n: tier('p%d' % n, item('p%d1' % n, attrs={'segmentation': 'q1[2:5]'}),
                        type='phrases', attrs={'segmentation': 'q'}),
         lambda n: tier('w%d' % n, type='words'),
         lambda n: tier('w%d' % n, item('w%d1' % n, 'one'), item('w%d2' % n, 'two'), type='words'),
         lambda n: tier('w%d' % n, item('w%d1' % n, 'a'), item('w%d2' % n), item('w%d3' % n, ''),
                        item('w%d4' % n, 'b'), type='words'),
         lambda n: tier('w%d' % n, item('w%d1' % n, attrs={'segmentation': 'q1[0:2]'}),
                        item('w%d2' % n, attrs={'content': 'q1[1:3]'}), type='words',
                        attrs={'segmentation': 'q', 'content': 'q'}),
         lambda n: tier('x%d' % n, item('x%d1' % n, 'other'), type='other'),
         lambda n: tier('x%d' % n, item('x%d1' % n, 'untyped')),
         lambda n: tier('x%d' % n, item('x%d1' % n, 'caps'), type='Phrases')]


def value(x):
    if x.get('text') is not None:
        return x['text']
    a = x.get('attrs') or {}
    for ra in ('content', 'segmentation'):
        if ra in a:
            lo, hi = a[ra][3:-1].split(':')
            return 'qwerty'[int(lo):int(hi)]
    return None


def first(g, typ):
    return next((t for t in g['kids'] if t.get('type') == typ), None)


def default_input(g):
    """The first phrase, else all words."""
    p = first(g, 'phrases')
    if p and p['kids'] and value(p['kids'][0]):
        return value(p['kids'][0])
    w = first(g, 'words')
    return ' '.join(value(x) or '' for x in w['kids']) if w else ''


CELLS = [('i-input', 'next(igt.select(type="phrases"))[0].value()',
          lambda g: value(first(g, 'phrases')['kids'][0])),
         ('i-wf', '1', lambda g: 1), ('i-length', 'len(igt)', lambda g: len(g['kids'])),
         ('i-comment', 'igt.id', lambda g: g.get('id')),
         ('i-origin', '"const"', lambda g: 'const'),
         ('i-author', 'igt.attributes.get("k")', lambda g: (g.get('attrs') or {}).get('k')),
         ('i-id', '"own"', lambda g: 'own'),
         ('i-words', '"+".join(i.value() for t in igt.select(type="words") for i in t)',
          lambda g: '+'.join(value(x) for t in g['kids'] if t.get('type') == 'words'
                             for x in t['kids'])),
         ('i-wf', 'igt.type or ""', lambda g: g.get('type') or '')]


def rows(s, start=0, skip=10, cells=None):
    out = []
    for n, g in enumerate(s['kids']):
        row = {'i-id': start + n * skip}
        if cells is None:
            row['i-input'] = default_input(g)
        else:
            for k in cells:
                row[CELLS[k][0]] = CELLS[k][2](g)
        out.append(row)
    return out


class World:
    def __init__(self, ctx):
        self.ctx, self.d, self.n = ctx, ctx.tmp(), 0
        self.rel = os.path.join(self.d, 'Relations')
        with open(self.rel, 'w') as fh:
            fh.write('item:\n')

    def check(self, s, want, config, command=None):
        self.n += 1
        del stubs.MADE[:]
        out = os.path.join(self.d, 'skel')
        if command is None:
            command = self.n % 2 == 0
        if command:
            src, p = os.path.join(self.d, 'in.xml'), os.path.join(self.d, 'c.json')
            with open(src, 'wb') as fh:
                fh.write(xmlref.write(s).encode())
            args = ['-i', src, '-o', out, '-f', 'itsdb']
            if config is not None:
                with open(p, 'w') as fh:
                    json.dump(config, fh)
                args += ['-c', p]
            r = cli.run(xigt_export.main, args) if self.n % 4 else \
                cli.run(lambda a: xigt_main.main(), ['export'] + args)
            if r.exc is not None or r.code:
                raise Violation('export with %r: %r' % (config, r))
            log = r.out
        else:
            log = None
            exporter.xigt_export(build(s), out, config=config)
        if want is None:
            if stubs.MADE:
                raise Violation('exported without relations')
            if log is not None and 'Relations file required' not in log:
                raise Violation('missing relations are not reported: %r' % log)
            self.ctx.out('no relations')
        else:
            exp = [(out, want[0], want[1])]
            if stubs.MADE != exp:
                raise Violation('config %r: rows\n%r\nexpected\n%r' % (config, stubs.MADE, exp))
            for r in stubs.MADE[0][2]:
                if 'i-input' in r and type(r['i-input']) is not str:
                    raise Violation('i-input is a %s' % type(r['i-input']).__name__)
            self.ctx.out('rows' if want[1] else 'no rows')
        self.ctx.ev((repr(s), repr(config)))
        self.ctx.sample([s, config])


def cases(tier):
    for b in range(NB):
        yield ['default', b]
    for b in range(NB):
        yield ['cells', b]
    yield ['ids']
    for n in sizes.SIZES if tier == 'thorough' else LADDER:
        yield ['size', n]
    yield ['again']
    yield ['relations']


def sample(n=3):
    gs = []
    for i in range(n):
        g = full_igt('g%d' % i)
        g['kids'][0]['kids'][0]['text'] = 'ab cd %d' % i
        g['kids'][1]['kids'] = [item('w%d' % k, 'w%d%d' % (i, k)) for k in range(1, 3 + i)]
        if i:
            g['attrs'] = {'k': 'v%d' % i}
            g['type'] = 'T%d' % i
        gs.append(g)
    return corpus(*gs)


def few(w):
    """Igts with hardly anything still have their rows, in their places."""
    some = [lambda k: igt(None), lambda k: igt('e%d' % k), lambda k: igt(None, tier()),
            lambda k: igt(None, attrs={'k': 'v'}), lambda k: igt(None, md=[metadata(meta())]),
            lambda k: igt('f%d' % k, TIERS[1](k)), lambda k: igt(None, TIERS[6](k)),
            lambda k: igt(None, TIERS[5](k))]
    for n in range(1, 4 if w.ctx.tier == 'quick' else 5):
        for gs in itertools.product(range(len(some)), repeat=n):
            s = corpus(*[some[g](k) for k, g in enumerate(gs)])
            w.check(s, (w.rel, rows(s)), {'relations': w.rel})
            if n < 3:
                w.check(s, (w.rel, rows(s, 1, 1, [2, 3])), {
                    'relations': w.rel, 'i-id_start': 1, 'i-id_skip': 1,
                    'cells': [CELLS[2][:2], CELLS[3][:2]]})


LADDER = (5, 9, 10, 11, 17, 33, 65, 101, 129)


def large(n, w):
    """n igts, tiers, words, cells or characters, something else at every position."""
    base = {'relations': w.rel}
    for p in sizes.positions(n):
        gs = [igt('g%d' % i, tier('w', item('w1', 'v%d' % i), type='words'),
                  attrs={'k': str(i)}) for i in range(n)]
        for odd in (igt(None), gs[p - 1], igt('p', TIERS[1](0), TIERS[6](1))):
            gs[p] = dict(odd, id='odd' if odd.get('id') else None)
            s = corpus(*gs)
            w.check(s, (w.rel, rows(s)), base)
            w.check(s, (w.rel, rows(s, p, p, [2, 3, 5])),
                    dict(base, **{'i-id_start': p, 'i-id_skip': p,
                                  'cells': [CELLS[c][:2] for c in (2, 3, 5)]}))
        other = [tier('x%d' % i, item('y%d' % i, 'o'), type='other') for i in range(n)]
        other[p] = tier('w', item('w1', 'the'), item('w2', 'words'), type='words')
        s = corpus(igt('g', *other), igt('h', *(other + [TIERS[1](0)])))
        w.check(s, (w.rel, rows(s)), base)
        text = ''.join('abcdefg '[i % 8] for i in range(n))
        words = [item('w%d' % i, 'v%d' % i) for i in range(n)]
        words[p] = item('w%d' % p, text[:p] + 'X' + text[p:])
        s = corpus(igt('g', tier('w', *words, type='words')),
                   igt('h', tier('p', item('p1', text[:p] + 'X' + text[p:]),
                                 *words, type='phrases')))
        w.check(s, (w.rel, rows(s)), base)
        words[p] = item('w%d' % p)
        s = corpus(igt('g', tier('w', *words, type='words')))
        w.check(s, (w.rel, rows(s)), base)
    s = corpus(igt('g', attrs={'k': 'v'}), igt('h'))
    cells = [('c%d' % i, 'str(igt.id) + "%d"' % i) for i in range(n)]
    w.check(s, (w.rel, [dict({'i-id': k * 10}, **{c: g['id'] + c[1:] for c, _ in cells})
                        for k, g in enumerate(s['kids'])]), dict(base, cells=cells))


def run(case, ctx):
    w = World(ctx)
    if case[0] == 'size':
        return large(case[1], w)
    if case[0] == 'default':
        gs, k = [], 0
        for n in range(4):
            for ts in itertools.product(range(len(TIERS)), repeat=n):
                k += 1
                if k % NB != case[1]:
                    continue
                gs.append(igt('g%d' % len(gs), tier('q', item('q1', 'qwerty'), type='q'),
                              *[TIERS[t](j) for j, t in enumerate(ts)]))
                if len(gs) == 5:
                    s = corpus(*gs)
                    w.check(s, (w.rel, rows(s)), {'relations': w.rel})
                    ctx.traces += 5
                    gs = []
        s = corpus(*gs)
        w.check(s, (w.rel, rows(s)), {'relations': w.rel})
        if case[1] == 0:
            few(w)
    elif case[0] == 'cells':
        s, k = sample(), 0
        for n in range(5 if ctx.thorough else 4):
            for cs in itertools.product(range(len(CELLS)), repeat=n):
                k += 1
                if k % NB == case[1]:
                    w.check(s, (w.rel, rows(s, cells=cs)),
                            {'relations': w.rel, 'cells': [CELLS[c][:2] for c in cs]})
        for n in range(4):
            s = sample(n)
            w.check(s, (w.rel, rows(s, cells=[2, 3])),
                    {'relations': w.rel, 'cells': [CELLS[2][:2], CELLS[3][:2]]})
    elif case[0] == 'ids':
        for n in range(4):
            s = sample(n)
            for start, skip in itertools.product([None, 0, 1, -5, 1000], [None, 1, 10, 0, -1, 7]):
                c = {'relations': w.rel, 'cells': [CELLS[3][:2]]}
                if start is not None:
                    c['i-id_start'] = start
                if skip is not None:
                    c['i-id_skip'] = skip
                for command in (False, True):
                    w.check(s, (w.rel, rows(s, start or 0, 10 if skip is None else skip, [3])),
                            dict(c), command)
    elif case[0] == 'again':
        s, t = sample(), sample(1)
        for n in range(1, 5 if ctx.thorough else 4):
            for seq in itertools.product(range(4), repeat=n):
                cfgs = [({'relations': w.rel}, dict()),
                        ({'relations': w.rel, 'cells': [CELLS[3][:2], CELLS[2][:2]]},
                         dict(cells=[3, 2])),
                        ({'relations': w.rel, 'i-id_start': 7}, dict(start=7)),
                        ({'relations': w.rel, 'cells': [], 'i-id_skip': 1},
                         dict(cells=[], skip=1))]
                before = [repr(c) for c, _ in cfgs]
                if n < 3:
                    # one prepared configuration serves several exports
                    for c, kw in [cfgs[q] for q in seq]:
                        for c2 in [dict(c), None][:1 + (kw == {})]:
                            p = exporter.prepare_config(c2)
                            for x in (s, t, s):
                                got = list(exporter.export_corpus(build(x), p))
                                if got != rows(x, **kw):
                                    raise Violation('export_corpus with the prepared %r: %r, '
                                                    'expected %r' % (c2, got, rows(x, **kw)))
                                ctx.ev(('prepared', repr(c2), repr(x)))
                for k, q in enumerate(seq):
                    for x in ((s, t) if k % 2 else (t, s)):
                        w.check(x, (w.rel, rows(x, **cfgs[q][1])), cfgs[q][0], False)
                for b, (c, _) in zip(before, cfgs):
                    if repr(c) != b:
                        raise Violation('the configuration given was changed: %s' % b)
    else:
        old = os.environ.pop('LOGONROOT', None)
        try:
            s = sample()
            root = os.path.join(w.d, 'logon')
            rel2 = os.path.join(root, 'lingo/lkb/src/tsdb/skeletons/english/Relations')
            for command in (False, True):
                for c in (None, {}, {'relations': None}, {'relations': ''},
                          {'relations': os.path.join(w.d, 'nosuch')}, {'relations': w.d},
                          {'i-id_start': 3}):
                    w.check(s, None, c, command)
                os.environ['LOGONROOT'] = root
                if not os.path.exists(rel2):
                    w.check(s, None, {}, command)
                    os.makedirs(os.path.dirname(rel2))
                    open(rel2, 'w').close()
                for c in (None, {}, {'i-id_start': 3}):
                    w.check(s, (rel2, rows(s, **({'start': 3} if c else {}))), c, command)
                w.check(s, (w.rel, rows(s)), {'relations': w.rel}, command)
                w.check(s, None, {'relations': None}, command)
                del os.environ['LOGONROOT']
            # malformed expressions are refused
            for bad in ('igt.', '1 +', 'return 1'):
                del stubs.MADE[:]
                try:
                    exporter.xigt_export(build(s), 'x', {'relations': w.rel,
                                                         'cells': [('i-wf', bad)]})
                except SyntaxError:
                    ctx.out('refused')
                else:
                    raise Violation('the malformed cell %r is accepted' % bad)
        finally:
            os.environ.pop('LOGONROOT', None)
            if old is not None:
                os.environ['LOGONROOT'] = old
