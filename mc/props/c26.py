"""C26: the LaTeX export shows every word, aligned, and nothing else."""
import itertools
import json
import os
from mc import cli, sizes, xmlref
from mc.core import Violation
from mc.dom import corpus, igt, tier, item, full_igt, build
from xigt import main as xigt_main
from xigt.exporters import latex
from xigt.scripts import xigt_export

ID = 'C26'
LEVEL = 'exploration'
IMPORTS = ('xigt', 'xigt.scripts.xigt_export', 'xigt.exporters.latex')
RULE = ('(a) two tiers with up to 4 and 3 (thorough 4) items, every item of the second referring to nothing, a '
        'missing item, one, or two items in any order; (a2) the same with up to 3 and 2 items whose texts are missing, empty or equal; (b) three tiers with up to 2 '
        '(thorough 3), 3 and 2 (thorough 3) items with references to all earlier tiers; (c) all '
        'strings up to length 3 (4) over 13 characters (all that LaTeX treats specially); (d) '
        'all sequences of up to 4 tiers of 8 kinds, all pairs of 14 tier types resembling those selected, missing ids and types, empty tiers, '
        'several igts, derived values, n words, tiers, igts, characters (n up to 101) with '
        'something else at every (boundary) position, configurations (tier types, substitutions), document '
        'encodings; the written document parsed and rendered by a reference reader; required: '
        'all items in order once, equal columns, aligned items in one column, others apart '
        '(strongly connected components of order and alignment); distinct = distinct '
        '(document, configuration)')
ASSUMPTIONS = ['item ids are unique in an igt, texts have no line breaks',
               'references that values are derived from can be resolved',
               'columns are required to be minimal if all items are aligned or, for two tiers, '
               'if alignments do not cross']
NB = 96
CASE_CPU_THOROUGH = 300


# --------------------------------------------------------- reading LaTeX

MACROS = {'textbackslash': '\\', 'textasciitilde': '~', 'textasciicircum': '^'}


def rendered(s):
    """The text LaTeX shows for s (one item; no unescaped specials)."""
    out, i = [], 0
    while i < len(s):
        c = s[i]
        if c == '\\':
            j = i + 1
            while j < len(s) and s[j].isascii() and s[j].isalpha():
                j += 1
            if j == i + 1:
                if j >= len(s) or s[j] not in '&%$#_{}':
                    raise Violation('LaTeX command %r in %r' % (s[i:j + 1], s))
                out.append(s[j])
                i = j + 1
                continue
            name = s[i + 1:j]
            if name not in MACROS:
                raise Violation('LaTeX command \\%s in %r' % (name, s))
            out.append(MACROS[name])
            if s.startswith('{}', j):
                j += 2
            elif j < len(s) and s[j] == ' ':
                raise Violation('the space after \\%s is lost in %r' % (name, s))
            i = j
        elif c in '&%$#_~^':
            raise Violation('unescaped %r in %r' % (c, s))
        elif c in '{}':
            out.append(c)
            i += 1
        else:
            out.append(c)
            i += 1
    t = ''.join(out)
    return t


def groups(line):
    """'{..} {..}\\\\' -> list of the contents of the groups."""
    out, i = [], 0
    if not line.endswith('\\\\'):
        raise Violation('line %r does not end in \\\\' % line)
    line = line[:-2]
    while i < len(line):
        if out:
            if line[i] != ' ':
                raise Violation('columns are not separated in %r' % line)
            i += 1
        if line[i:i + 1] != '{':
            raise Violation('column without braces in %r' % line)
        j, depth = i + 1, 1
        while depth:
            if j >= len(line):
                raise Violation('unbalanced braces in %r' % line)
            if line[j] == '\\':
                j += 1
            elif line[j] == '{':
                depth += 1
            elif line[j] == '}':
                depth -= 1
            j += 1
        out.append(line[i + 1:j - 1])
        i = j
    return out


def parse(text):
    """-> list per igt: None (not exported) or (count of ls, lines, translations)"""
    lines = [l for l in text.split('\n') if l]
    try:
        a, b = lines.index('\\begin{document}'), lines.index('\\end{document}')
    except ValueError:
        raise Violation('no document environment')
    if lines[:a] != ['\\documentclass{article}', '\\usepackage{gb4e}'] or b != len(lines) - 1:
        raise Violation('unexpected frame %r %r' % (lines[:a], lines[b:]))
    out, i = [], a + 1
    while i < b:
        if lines[i].startswith('%'):
            if lines[i] == '%':
                i += 1
                continue
            out.append(('comment', lines[i]))
            i += 1
            continue
        j = lines.index('\\end{exe}', i)
        if lines[i] != '\\begin{exe}\\small' or not lines[i + 1].startswith('\\ex\\g'):
            raise Violation('unexpected lines %r' % lines[i:i + 2])
        n = lines[i + 1][len('\\ex\\g'):]
        if n.strip('l'):
            raise Violation('unexpected line %r' % lines[i + 1])
        body = lines[i + 2:j]
        trans = [l[len('\\trans '):] for l in body if l.startswith('\\trans ')]
        rows = [l for l in body if not l.startswith('\\trans ')]
        if body[len(rows):] != ['\\trans ' + t for t in trans]:
            raise Violation('translations are not last: %r' % body)
        out.append((len(n), rows, trans))
        i = j + 1
    return out


# ------------------------------------------------------------- reference

def sccs(nodes, edges):
    reach = {n: {n} for n in nodes}
    changed = True
    while changed:
        changed = False
        for a, b in edges:
            new = reach[b] - reach[a]
            if new:
                reach[a] |= new
                changed = True
    # transitive closure over the growing sets
    changed = True
    while changed:
        changed = False
        for n in nodes:
            new = set().union(*[reach[m] for m in reach[n]]) - reach[n]
            if new:
                reach[n] |= new
                changed = True
    return {n: frozenset(m for m in reach[n] if n in reach[m]) for n in nodes}


def layout(cols, tiers, what):
    """cols: per tier, list of lists of names; tiers: [[(name, [names referred])]]"""
    widths = {len(r) for r in cols}
    if len(widths) != 1:
        raise Violation('%s: lines have different numbers of columns: %r' % (what, cols))
    where = {}
    for row, t in zip(cols, tiers):
        flat = [n for c in row for n in c]
        if flat != [n for n, _ in t]:
            raise Violation('%s: items shown %r, items of the tier %r' % (
                what, flat, [n for n, _ in t]))
        for k, c in enumerate(row):
            for n in c:
                where[n] = k
    for k in range(widths.pop()):
        if not any(r[k] for r in cols):
            raise Violation('%s: column %d is empty: %r' % (what, k, cols))
    edges, linked = [], set()
    for d, t in enumerate(tiers):
        earlier = {n for u in tiers[:d] for n, _ in u}
        for i, (n, rs) in enumerate(t):
            if i:
                edges.append((t[i - 1][0], n))
            for r in rs:
                if r in earlier:
                    edges += [(n, r), (r, n)]
                    linked |= {n}
                    if where[n] != where[r]:
                        raise Violation('%s: %s is aligned to %s but in column %d, not %d: %r' % (
                            what, n, r, where[n], where[r], cols))
    complete = all(n in linked for t in tiers[1:] for n, _ in t)
    monotone = False
    if len(tiers) == 2 and not complete:
        pos = {n: i for i, (n, _) in enumerate(tiers[0])}
        spans = [[pos[r] for r in rs if r in pos] for _, rs in tiers[1]]
        spans = [s for s in spans if s]
        monotone = all(max(a) <= min(b) for a, b in zip(spans, spans[1:]))
    if complete or monotone:
        comp = sccs(list(where), edges)
        for a, b in itertools.combinations(where, 2):
            if where[a] == where[b] and comp[a] is not comp[b] and comp[a] != comp[b]:
                alone = [n for n in (a, b) if n not in linked and len(comp[n]) == 1]
                same = any(a in dict(t) and b in dict(t) for t in tiers)
                if len(alone) == 2 and same:
                    continue  # neighbours without any alignment
                raise Violation('%s: %s and %s share a column without being aligned: %r' % (
                    what, a, b, cols))
    return 'complete' if complete else 'partial'


# ------------------------------------------------------------- execution

class World:
    def __init__(self, ctx):
        self.ctx = ctx
        self.d = ctx.tmp()
        self.n = 0

    def export(self, s, config=None, encoding='utf-8'):
        self.n += 1
        src, dst = os.path.join(self.d, 'in'), os.path.join(self.d, 'out.tex')
        with open(src, 'wb') as fh:
            head = '' if encoding == 'utf-8' else \
                '<?xml version="1.0" encoding="%s"?>\n' % encoding.replace('-sig', '')
            fh.write((head + xmlref.write(s)).encode(encoding))
        if self.n % 5 == 0:
            with open(dst, 'w') as fh:
                fh.write('old contents\n' * 1000)
        args = ['-i', src, '-o', dst]
        args += [[], ['-f', 'latex']][self.n % 2] + [[], ['-v'], ['-vvv']][self.n % 3
                                                                          if self.n < 40 else 0]
        if config is not None:
            p = os.path.join(self.d, 'config.json')
            with open(p, 'w') as fh:
                json.dump(config, fh)
            args += ['-c', p]
        if self.n % 3 == 2:
            # the function itself, on a corpus that was never written
            r = cli.run(lambda a: latex.xigt_export(build(s), dst, config and dict(config)),
                        [], both=False)
        elif self.n % 2:
            r = cli.run(xigt_export.main, args, both=False)
        else:
            r = cli.run(lambda a: xigt_main.main(), ['export'] + args, both=False)
        if r.exc is not None or r.code:
            raise Violation('export of %s: %r %s' % (short(s), r, r.err))
        if r.out:
            raise Violation('the export prints %r' % r.out[:300])
        with open(dst, encoding='utf-8') as fh:
            return parse(fh.read())

    def check(self, s, config=None, encoding='utf-8'):
        """Export a corpus and compare with the reference."""
        out = self.export(s, config, encoding)
        if len(out) != len(s['kids']):
            raise Violation('%d igts, %d exported' % (len(s['kids']), len(out)))
        types = (config or {}).get('tier_types', ['words', 'morphemes', 'glosses'])
        for g, o in zip(s['kids'], out):
            what = short(g)
            ts = [t for t in g['kids'] if t.get('type') is not None
                  and t['type'].lower() in types]
            if len(ts) < 2:
                if o != ('comment', '%% cannot export IGT %s' % g.get('id')):
                    raise Violation('%s: expected a comment, got %r' % (what, o))
                self.ctx.out('not exported')
                continue
            if o[0] == 'comment':
                raise Violation('%s is not exported' % what)
            n, rows, trans = o
            if n != len(ts) or len(rows) != len(ts):
                raise Violation('%s: %d tiers, \\g%s and %d lines' % (
                    what, len(ts), 'l' * n, len(rows)))
            cols = [groups(r) for r in rows]
            want = [t['kids'][0] for t in g['kids']
                    if t.get('type') == 'translations' and t['kids']]
            if [self.shown(x) for x in trans] != [x.get('text') or '' for x in want]:
                raise Violation('%s: translations %r' % (what, trans))
            if config and config.get('one'):
                # one item per column: texts may contain spaces
                got = [[[self.shown(c)] for c in r] for r in cols]
                texts = [[[x.get('text') or ''] for x in t['kids']] for t in ts]
                if got != texts:
                    raise Violation('%s: shown %r, expected %r' % (what, got, texts))
                self.ctx.out('texts')
            else:
                # items are named by position, texts may repeat or be empty
                by = {x['id']: (k, i) for k, t in enumerate(ts)
                      for i, x in enumerate(t['kids']) if x.get('id')}
                names = []
                for k, (r, t) in enumerate(zip(cols, ts)):
                    got = [[self.shown(x) for x in c.split(' ')] if c else [] for c in r]
                    flat = [x for c in got for x in c]
                    if flat != [x.get('text') or '' for x in t['kids']]:
                        raise Violation('%s: items shown %r, items of the tier %r' % (
                            what, got, t['kids']))
                    i, row = 0, []
                    for c in got:
                        row.append([(k, i + j) for j in range(len(c))])
                        i += len(c)
                    names.append(row)
                self.ctx.out(layout(names, [[((k, i), [by[j] for j in refs(x) if j in by])
                                             for i, x in enumerate(t['kids'])]
                                            for k, t in enumerate(ts)], what))
        self.ctx.ev((repr(s), repr(config), encoding))

    def shown(self, x):
        return '' if x == '{}' else rendered(x)


def refs(x):
    a = x.get('attrs') or {}
    v = a.get('alignment') or a.get('segmentation') or ''
    out = []
    for p in v.replace('+', ' ').replace(',', ' ').split():
        out.append(p.split('[')[0])
    return out


def short(s):
    if s['k'] == 'xc':
        return ' / '.join(short(k) for k in s['kids'])
    return '; '.join('%s(%s): %s' % (t.get('id'), t.get('type'), ' '.join(
        '%s>%s' % (x.get('text'), ','.join(refs(x))) for x in t['kids'])) for t in s.get('kids', []))


# ------------------------------------------------------------------ cases

def choices(names, pairs=True):
    out = [None, 'gone'] + [n for n in names]
    if pairs:
        out += ['%s %s' % p for p in itertools.permutations(names, 2)]
    return out


def blanks():
    """Items without text or with the same text still take part."""
    for n, m in ((1, 1), (1, 2), (2, 1), (2, 2), (1, 3), (3, 2)):
        ns = ['w%d' % i for i in range(n)]
        for rs in itertools.product([None] + ns + (['w0 w1'] if n > 1 else []), repeat=m):
            for ts in itertools.product(('', None, 'x'), repeat=n + m):
                g = make([[(w, None) for w in ns], [('m%d' % i, r) for i, r in enumerate(rs)]],
                         n + m)
                for x, t in zip([x for t in g['kids'] for x in t['kids']], ts):
                    x['text'] = t
                    at = x['attrs']
                    if 'segmentation' in at:  # what a text would be taken from
                        at['alignment'] = at.pop('segmentation')
                yield g


def make(tiers, i=0):
    ts = []
    for k, t in enumerate(tiers):
        its = []
        for name, r in t:
            at = {}
            if r:
                at[['alignment', 'segmentation'][(i + k) % 2]] = (
                    r if (i + k) % 3 else r.replace(' ', '+') if k == 2 else
                    ','.join(p + '[0:1]' for p in r.split()))
            its.append(item(name, name, attrs=at))
        ts.append(tier('T%d' % k, *its, type=['words', 'morphemes', 'Glosses'][k]))
    return igt('g', *ts)


def two(tier_):
    for n in range(5):
        ns = ['w%d' % i for i in range(n)]
        ch = choices(ns)
        for m in range(5 if tier_ == 'thorough' else 4):
            for rs in itertools.product(ch, repeat=m):
                yield [[(w, None) for w in ns], [('m%d' % i, r) for i, r in enumerate(rs)]]


def three(tier_):
    big = tier_ == 'thorough'
    for n in ((1, 2, 3) if big else (1, 2)):
        ns = ['w%d' % i for i in range(n)]
        for m in ((0, 1, 2, 3)):
            ms = ['m%d' % i for i in range(m)]
            for l in ((1, 2, 3) if big else (1, 2)):
                for r1 in itertools.product([c for c in choices(ns) if c != 'gone'], repeat=m):
                    for r2 in itertools.product([None] + ns + ms + ['%s %s' % p for p in
                                                itertools.permutations(ms, 2)]
                                                + (['w0 m0'] if m else []), repeat=l):
                        yield [[(w, None) for w in ns], list(zip(ms, r1)),
                               [('g%d' % i, r) for i, r in enumerate(r2)]]


CHARS = ['\\', '{', '}', '~', '^', '&', '%', '$', '#', '_', 'a', ' ', '\u00e9']


def texts(tier_):
    for n in range(1, 5 if tier_ == 'thorough' else 4):
        for s in itertools.product(CHARS, repeat=n):
            yield ''.join(s)
    for s in ['textbackslash', '\\textbackslash', '{}', '\\{}', '\\\\', '\\ ', '{a}',
              '\\textasciitilde{}', '"\'`<>|-[]()*+=/', '\u4e2d\u6587', '\U0001f600',
              'a' * 300, '\\end{exe}', '% comment', '\\trans x', '$x^2_3$', '#1']:
        yield s


def cases(tier):
    for f in ('two', 'three', 'texts', 'blanks'):
        for b in range(NB):
            yield [f, b]
    for n in sizes.SIZES if tier == 'thorough' else LADDER:
        for part in range(sizes.parts(n)):
            yield ['size', n, part]
    for f in ('tiers', 'config', 'files'):
        yield [f]


def batches(it, b, size):
    """Every NB-th element of it, in lists."""
    cur = []
    for n, x in enumerate(it):
        if n % NB == b:
            cur.append((n, x))
            if len(cur) == size:
                yield cur
                cur = []
    if cur:
        yield cur


LADDER = (5, 9, 10, 11, 17, 33, 65, 101)


def large(n, part, w):
    """n words, tiers, igts, translations or characters, with something else at every
    (boundary) position."""
    wd = [('w%d' % i, None) for i in range(n)]
    one = [('m%d' % i, 'w%d' % i) for i in range(n)]
    gs = []
    for p in sizes.positions(n, part):
        q = (p + 1) % n
        v = [one[:p] + one[p + 1:],                                  # a word without
             one[:p] + [('m%d' % p, None)] + one[p + 1:],
             one[:p + 1] + [('x', 'w%d' % p)] + one[p + 1:],         # two for a word
             one[:p] + [('m%d' % p, 'w%d w%d' % (p, q))] + one[p + 1:],
             one[:p] + [('m%d' % p, 'w%d' % q), ('x', 'w%d' % p)] + one[p + 2:],
             [(m, 'w%d' % p) for m, _ in one],                        # all for a word
             one[:p]]
        for r in v:
            gs.append(make([wd, r], 0))
        gs.append(make([wd[:p] or wd, one[:p] or one, [('g%d' % i, 'm%d' % i)
                                                       for i in range(p or n)]], p))
    for k in range(0, len(gs), 8):
        w.check(corpus(*[dict(g, id='i%d' % i) for i, g in enumerate(gs[k:k + 8])]))
    short_ = make([[('a', None), ('b', None)], [('c', 'b'), ('d', 'b')]])
    ts = []
    for p in sizes.positions(n, part):
        ts.append(''.join('abcdefg'[i % 7] for i in range(p)) + '_' + 'x' * (n - p))
    w.check(corpus(igt('g', tier('w', *[item('w%d' % i, t) for i, t in enumerate(ts)],
                                 type='words'),
                       tier('m', *[item('m%d' % i, t[::-1], attrs={'alignment': 'w%d' % i})
                                   for i, t in enumerate(ts)], type='glosses'),
                       *[tier('t%d' % i, item('t%d1' % i, t), type='translations')
                         for i, t in enumerate(ts)])))
    # many igts, many tiers, many translations
    w.check(corpus(*[dict(short_, id='i%d' % i) for i in range(n)]))
    for p in sizes.positions(n, part)[::3]:
        lines = [tier('l%d' % i, item('l%d1' % i, 'x%d' % i, attrs={
            'alignment': 'l%d1' % (i - 1)} if i else {}),
            *([item('l%d2' % i, 'y', attrs={'alignment': 'l%d1' % (i // 2)})] if i == p else []),
            type='words' if i != p else 'glosses') for i in range(n)]
        if n <= 33:
            w.check(corpus(igt('g', *lines)))
        w.check(corpus(igt('g', *[tier('u%d' % i, item('u%d1' % i, 'x'), type='phrases' if i != p
                                       else 'words') for i in range(n)]),
                       igt('h', *[tier('u%d' % i, *[item('u%d-%d' % (i, j), 'x%d' % j) for j in
                                                    range(3 if i == p else 1)],
                                       type='translations') for i in range(n)])))


def run(case, ctx):
    w = World(ctx)
    if case[0] == 'size':
        return large(case[1], case[2], w)
    if case[0] in ('two', 'three', 'blanks'):
        fam = {'two': two, 'three': three, 'blanks': lambda _: blanks()}[case[0]]
        for g in batches(fam(ctx.tier), case[1], 12):
            gs = []
            for k, (n, t) in enumerate(g):
                x = t if case[0] == 'blanks' else make(t, n)
                x['id'] = 'i%d' % k
                gs.append(x)
            w.check(corpus(*gs))
            ctx.traces += len(gs)
        ctx.sample(short(gs[-1]))
    elif case[0] == 'texts':
        for g in batches(texts(ctx.tier), case[1], 16):
            ts = [t for _, t in g]
            ts = [t for t in ts if t.strip(' ')] or ['x']
            w.check(corpus(igt('g', tier('w', *[item('w%d' % i, t) for i, t in enumerate(ts)],
                                         type='words'),
                               tier('m', *[item('m%d' % i, t[::-1], attrs={
                                   'alignment': 'w%d' % i}) for i, t in enumerate(ts)],
                                    type='glosses'),
                               *[tier('t%d' % i, item('t%d1' % i, t), type='translations')
                                 for i, t in enumerate(ts)])), {'one': 1})
    elif case[0] == 'tiers':
        structures(w, ctx)
    elif case[0] == 'config':
        configs(w, ctx)
    else:
        for n in range(4):
            for perm in itertools.product(range(3), repeat=n):
                gs = [[make([[('a', None)], [('b', 'a')]]),
                       igt(None, tier('x', item('x1', 'q'))),
                       make([[('c', None), ('d', None)], [('e', 'd c'), ('f', None)],
                             [('g', 'e')]])][p] for p in perm]
                gs = [dict(g, id='i%d' % i) if g.get('id') else g for i, g in enumerate(gs)]
                w.check(corpus(*gs))
        for enc in ('utf-8', 'utf-16', 'iso-8859-1', 'ascii', 'utf-8-sig'):
            t = 'x' if enc == 'ascii' else '\u00e9\u00fc'
            s = corpus(igt('g', tier('w', item('w1', t), type='words'),
                           tier('m', item('m1', t + 'b', attrs={'alignment': 'w1'}),
                                type='glosses')))
            w.check(s, None, enc)


def structures(w, ctx):
    def t(k, n):
        a = [item('%s%d' % ('abcd'[n], i), '%s%d' % ('abcd'[n], i),
                  attrs={'alignment': '%s%d' % ('abcd'[n - 1], i)} if n else {})
             for i in range(2)]
        return [lambda: tier('t%d' % n, *a, type='words'),
                lambda: tier('t%d' % n, *a, type='Morphemes'),
                lambda: tier('t%d' % n, *a, type='GLOSSES'),
                lambda: tier('t%d' % n, *a[::-1], type='translations'),
                lambda: tier('t%d' % n, *a, type='phrases'),
                lambda: tier('t%d' % n, *a),
                lambda: tier(None, *[dict(x, id=None) for x in a], type='glosses'),
                lambda: tier('t%d' % n, type='translations' if n == 3 else 'words')][k]()
    for n in range(5):
        gs = []
        for ks in itertools.product(range(8), repeat=n):
            if n == 4 and not ctx.thorough and sum(ks) % 3:
                continue
            gs.append(igt('g%d' % (len(gs) + 1), *[t(k, i) for i, k in enumerate(ks)]))
            if len(gs) == 12:
                w.check(corpus(*gs))
                gs = []
        w.check(corpus(*gs))
    # types that only resemble the ones selected
    for a, b in itertools.product(['words', 'WORDS', 'word', 'wordss', 'words ', ' words', 's', '',
                                   'glosses', 'words-2', 'words,morphemes', 'translation',
                                   'Translations', "('words', 'morphemes', 'glosses')"], repeat=2):
        for c in (None, ['word', 'glosses'], ['words'], [], ['words ', 'gloss', '']):
            cfg = None if c is None else {'tier_types': c}
            w.check(corpus(igt('g', tier('x', item('x1', 'x1'), type=a),
                               tier('y', item('y1', 'y1', attrs={'alignment': 'x1'}), type=b),
                               tier('z', item('z1', 'z1', attrs={'alignment': 'x1'}),
                                    type='glosses'))), cfg)
    # values that come from elsewhere, and missing values
    g = full_igt('x')
    out = w.export(corpus(g))
    want = [3, [['ab', 'cd'], ['a b', 'cd'], ['A B', 'C']], ['the tr']]
    got = [out[0][0], [[c for c in groups(r)] for r in out[0][1]], out[0][2]]
    if got != want:
        raise Violation('derived values: %r, expected %r' % (got, want))
    for vals in itertools.product([None, '', 'v'], repeat=3):
        s = corpus(igt('x', tier('w', item('w1', vals[0]), item('w2', vals[1]), type='words'),
                       tier('m', item('m1', vals[2], attrs={'alignment': 'w1'}),
                            item('m2', attrs={'alignment': 'w2', 'content': 'w1'}),
                            type='glosses', attrs={'content': 'w', 'alignment': 'w'}),
                       tier('t', item('t1', vals[1]), type='translations')))
        out = w.export(s)
        got = [[w.shown(c) for c in groups(r)] for r in out[0][1]], [w.shown(x)
                                                                     for x in out[0][2]]
        v = [x or '' for x in vals]
        if got != ([[v[0], v[1]], [v[2], v[0]]], [v[1]]):
            raise Violation('values %r: shown %r' % (vals, got))
        ctx.ev(('values', vals))


def configs(w, ctx):
    s = corpus(igt('g', tier('p', item('p1', 'p_p'), type='phrases'),
                   tier('w', item('w1', 'ab', attrs={'segmentation': 'p1[0:2]'}),
                        item('w2', 'ba'), type='words'),
                   tier('m', item('m1', 'a1', attrs={'alignment': 'w1'}), type='morphemes'),
                   tier('n', item('n1', 'a#', attrs={'alignment': 'w2'}), type='notes'),
                   tier('t', item('t1', 'aa'), type='translations')))
    # translations may also be among the lines
    for types in itertools.chain.from_iterable(itertools.permutations(
            ['translations', 'words', 'notes', 'morphemes'], n) for n in range(5)):
        for blank in (False, True):
            g = s['kids'][0]
            ts = [t for t in g['kids'] if t['type'] in types or t['type'] == 'translations']
            if blank:
                ts = ts + [tier('t2', type='translations'),
                           tier('t3', item('t31', 'x'), item('t32', 'y'), type='translations')]
            w.check(corpus(igt('g', *[tier(t['id'], *[
                item(x['id'], x.get('text'), attrs={'alignment': 'w%d' % (i + 1)}
                     if t['type'] in ('morphemes', 'notes') and 'words' in types else {})
                for i, x in enumerate(t['kids'])], type=t['type']) for t in ts])),
                    {'tier_types': list(types)})
    # which tiers are shown
    for n in range(5):
        for types in itertools.permutations(['phrases', 'words', 'morphemes', 'notes'], n):
            out = w.export(s, {'tier_types': list(types)})
            want = [[x['text'].replace('_', '\\_').replace('#', '\\#') for x in t['kids']]
                    for t in s['kids'][0]['kids'] if t['type'] in types]
            if len(types) < 2:
                if out != [('comment', '% cannot export IGT g')]:
                    raise Violation('%r: %r' % (types, out))
                continue
            got = [[x for c in groups(r) for x in c.split(' ') if c] for r in out[0][1]]
            if got != want:
                raise Violation('%r: %r, expected %r' % (types, got, want))
            ctx.ev(('types', types))
    # substitutions: plain and functions, of items and of lines
    pats = [[], [['a', 'X']], [['a', 'X'], ['X', 'YY']], [['(a)(b)', '\\2\\1']],
            [['[ab]', ['m', 'm.group(0).upper()']]], [['nothing', 'Z']], [['^', '>']]]

    def apply(v, pat):
        for rx, rep in pat:
            if rx == 'a':
                v = v.replace('a', 'X')
            elif rx == 'X':
                v = v.replace('X', 'YY')
            elif rx == '(a)(b)':
                v = v.replace('ab', 'ba')
            elif rx == '[ab]':
                v = v.replace('a', 'A').replace('b', 'B')
            elif rx == '^':
                v = '>' + v
        return v
    for rx in ['words', 'mor', '.*', 'w|m', 'x', 'ords']:
        hit = {'words': ['words'], 'mor': ['morphemes'], '.*': ['words', 'morphemes',
               'translations'], 'w|m': ['words', 'morphemes'], 'x': [], 'ords': []}[rx]
        for pi, pt in itertools.product(pats, pats):
            out = w.export(s, {'item_substitutions': [[rx, pi]],
                               'tier_substitutions': [[rx, pt]]})
            w1, w2, m1, t1 = 'ab', 'ba', 'a1', 'aa'
            if 'words' in hit:
                w1, w2 = apply(w1, pi), apply(w2, pi)
            if 'morphemes' in hit:
                m1 = apply(m1, pi)
            lw, lm = '{%s} {%s}\\\\' % (w1, w2), '{%s} {}\\\\' % m1
            if 'words' in hit:
                lw = apply(lw, pt)
            if 'morphemes' in hit:
                lm = apply(lm, pt)
            if 'translations' in hit:
                t1 = apply(t1, pt)
            if out != [(2, [lw, lm], [t1])]:
                raise Violation('substitutions %r %r %r: %r, expected %r' % (
                    rx, pi, pt, out, [lw, lm, t1]))
            ctx.ev(('subs', rx, repr(pi), repr(pt)))
    # several entries: all that match are applied, in their order
    rxs = {'words': 'w', 'mor': 'm', '.*': 'wmt', 'w|m': 'wm', 'x': '', '[t-w]': 'wt'}
    for (r1, r2), p1, p2, which in itertools.product(
            itertools.product(rxs, repeat=2), pats[1:], pats[1:], (0, 1)):
        key = ['item_substitutions', 'tier_substitutions'][which]
        out = w.export(s, {key: [[r1, p1], [r2, p2]]})

        def do(v, kind):
            for r, p in ((r1, p1), (r2, p2)):
                if kind in rxs[r]:
                    v = apply(v, p)
            return v
        if which == 0:
            lw = '{%s} {%s}\\\\' % (do('ab', 'w'), do('ba', 'w'))
            lm = '{%s} {}\\\\' % do('a1', 'm')
            t1 = 'aa'
        else:
            lw = do('{ab} {ba}\\\\', 'w')
            lm = do('{a1} {}\\\\', 'm')
            t1 = do('aa', 't')
        if out != [(2, [lw, lm], [t1])]:
            raise Violation('%s %r %r, %r %r: %r, expected %r' % (
                key, r1, p1, r2, p2, out, [lw, lm, t1]))
        ctx.ev(('subs2', r1, r2, repr(p1), repr(p2), which))
    if w.export(s, {}) != w.export(s):
        raise Violation('an empty configuration is not the default one')
