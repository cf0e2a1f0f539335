"""C27: Toolbox import turns every record into one igt with all its data."""
import itertools
import json
import os
import warnings
from mc import cli, sizes, stubs
stubs.install()
from mc.core import Violation
from mc.dom import corpus, igt, tier, item, norm, snap, diff
from xigt import main as xigt_main
from xigt.codecs import xigtxml
from xigt.importers import toolbox as importer
from xigt.scripts import xigt_import

ID = 'C27'
LEVEL = 'exploration'
IMPORTS = ('xigt', 'xigt.importers.toolbox', 'xigt.scripts.xigt_import')
RULE = ('(a) all words up to length 4 (thorough 5) over {a, b, -} (and capitals) x all '
        'sequences of up to 3 morphemes out of 7 (thorough 4 out of 9); (b) all '
        'orders of up to 4 lines out of 12 (every default marker with contents, without '
        'contents, repeated, unmapped markers); (c) all sequences of up to 3 records out of 12 '
        'kinds (headers, missing or odd names, contexts, records that fail, warnings) x '
        'configurations; n words, morphemes, characters, wrapped blocks, lines or records (n up to '
        '129) with something else at every (boundary) position; non-ASCII text, layouts and encodings; real Toolbox text written, '
        'imported by the command, the result compared with a reference; distinct = distinct '
        '(text, configuration)')
ASSUMPTIONS = ['the toolbox library is replaced by a stand-in for the functions used',
               'record names are different and not empty; words are separated by spaces',
               'words that get longer in lower case are compared as they are']
NB = 24
BOUNDS = '-=~.'


# ------------------------------------------------------------- reference

def segment(word, morphs, s):
    """Range of the word that morpheme s covers (readme.txt)."""
    if len(morphs) == 1:
        return 0, len(word)
    w = word.lower()
    if len(w) != len(word):
        w = word
    pos = 0
    for m in morphs[:s]:
        m = m.strip(BOUNDS)
        if w[pos:pos + 1] == '-':
            pos += 1
        if not w.startswith(m, pos):
            return pos, len(w)
        pos += len(m)
    m = morphs[s].strip(BOUNDS)
    if s > 0 and s == len(morphs) - 1 or not w.startswith(m, pos):
        return pos, len(w)
    return pos, pos + len(m)


DEFAULT = {'\\t': 'w', '\\m': 'm', '\\g': 'g', '\\p': 'pos', '\\f': 't'}
TYPES = {'p': 'phrases', 'w': 'words', 'm': 'morphemes', 'g': 'glosses', 'pos': 'pos',
         't': 'translations'}
ALIGN = {'w': ('segmentation', 'p'), 'm': ('segmentation', 'w'), 'g': ('alignment', 'm'),
         'pos': ('alignment', 'm'), 't': ('alignment', 'p')}


def expected_tiers(order, data, tier_map=DEFAULT, phrase=('w', 'p'), types=TYPES, align=ALIGN):
    """order: markers in order; data: {marker: None or text or list per token of the
    target of lists of tokens} -> tier specs"""
    out, made = [], {}
    for mkr in order:
        if mkr not in tier_map:
            continue
        tid = tier_map[mkr]
        val = data[mkr]
        if phrase and phrase[0] == tid:
            t = tier(phrase[1], item(phrase[1] + '1', ' '.join(val or []) or None), type='phrases')
            out.append(t)
            made[phrase[1]] = t
        ra, tgt = align.get(tid, (None, None))
        its, at = [], {}
        if val is not None:
            target = made.get(tgt)
            at = {ra: tgt} if target else {}
            if isinstance(val, str):
                val = [[val]]
            elif val and isinstance(val[0], str):
                val = [val]
            for k, toks in enumerate(val):
                for s, tok in enumerate(toks):
                    a = {}
                    if target:
                        tg = target['kids'][k]
                        r = tg['id']
                        if types[tid] == 'words':
                            b = sum(len(x) + 1 for x in toks[:s])
                            r += '[%d:%d]' % (b, b + len(tok))
                        elif types[tid] == 'morphemes':
                            r += '[%d:%d]' % segment(tg['text'], toks, s)
                        a = {ra: r}
                    its.append(item('%s%d' % (tid, len(its) + 1), tok, attrs=a))
        t = tier(tid, *its, type=types[tid], attrs=at)
        out.append(t)
        made[tid] = t
    return out


# ------------------------------------------------------- writing Toolbox

def pad(cells, encoding='utf-8'):
    """Lines of cells -> lines aligned by bytes."""
    widths = [max(len(c.encode(encoding)) for c in col) for col in zip(*cells)]
    return [' '.join(c + ' ' * (w - len(c.encode(encoding)))
                     for c, w in zip(row, widths)).rstrip(' ') for row in cells]


def interlinear(words, encoding='utf-8'):
    """words: [(word, [(morph, gloss, pos)])] -> text of \\t, \\m, \\g, \\p lines"""
    cells = [[], [], [], []]
    for w, ms in words:
        for k, m in enumerate(ms):
            cells[0].append(w if k == 0 else '')
            for j in range(3):
                cells[j + 1].append(m[j])
    # a word longer than its morphemes makes its last column wider
    i = 0
    for w, ms in words:
        have = sum(max(len(cells[r][i + k].encode(encoding)) for r in (1, 2, 3)) + 1
                   for k in range(len(ms) - 1))
        for k in range(1, len(ms)):
            cells[0][i + k] = None
        i += len(ms)
    lines = ['', '', '', '']
    i = 0
    for w, ms in words:
        block = ['', '', '']
        for k in range(len(ms)):
            width = max(len(cells[r][i + k].encode(encoding)) for r in (1, 2, 3)) + 1
            for r in range(3):
                c = cells[r + 1][i + k]
                block[r] += c + ' ' * (width - len(c.encode(encoding)))
        i += len(ms)
        allr = [w + ' '] + block
        width = max(len(x.encode(encoding)) for x in allr)
        for r in range(4):
            lines[r] += allr[r] + ' ' * (width - len(allr[r].encode(encoding)))
    return [l.rstrip(' ') for l in lines]


class World:
    def __init__(self, ctx):
        self.ctx, self.d, self.n = ctx, ctx.tmp(), 0

    def imported(self, text, config=None, encoding='utf-8'):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            got, log = self._imported(text, config, encoding)
        ws = [w for w in ws if w.category is not ResourceWarning]
        self.warned = sorted('%s' % w.message for w in ws)
        if any(w.category is not stubs.ToolboxWarning for w in ws):
            raise Violation('import of\n%s\nwarns %r' % (text[:600], self.warned))
        return got, log

    def _imported(self, text, config, encoding):
        self.n += 1
        del stubs.ERRORS[:]
        src, dst = os.path.join(self.d, 'in.txt'), os.path.join(self.d, 'out.xml')
        with open(src, 'wb') as fh:
            fh.write(text.encode(encoding))
        log = ''
        if encoding != 'utf-8':
            importer.xigt_import(src, dst, config, encoding=encoding)
        else:
            args = ['-i', src, '-o', dst] + [[], ['-f', 'toolbox']][self.n % 2]
            if config is not None:
                p = os.path.join(self.d, 'c.json')
                with open(p, 'w') as fh:
                    json.dump(config, fh)
                args += ['-c', p]
            if self.n % 2:
                r = cli.run(xigt_import.main, args)
            else:
                r = cli.run(lambda a: xigt_main.main(), ['import'] + args)
            if r.exc is not None or r.code:
                raise Violation('import of\n%s\n%r' % (text[:600], r))
            log = r.out
        how = (config or {}).get('error_recovery_method', 'ratio')
        if set(stubs.ERRORS) - {how}:
            raise Violation('error recovery %r is asked for, %r used' % (how, stubs.ERRORS))
        with open(dst, 'rb') as fh:
            return snap(xigtxml.loads(fh.read())), log

    def check(self, text, igts, config=None, encoding='utf-8', errors=(), warns=()):
        got, log = self.imported(text, config, encoding)
        want = norm(corpus(*igts))
        df = diff(want, got)
        if df:
            raise Violation('%s\nimport of\n%s' % (df, text[:1200]))
        for e in errors:
            if 'item %s:' % e not in log:
                raise Violation('the failing record %s is not reported: %r' % (e, log[:300]))
        if log.count('Error during import') != len(errors) and encoding == 'utf-8':
            raise Violation('%d errors expected: %r' % (len(errors), log[:600]))
        if [x.split(':')[0] for x in self.warned] != sorted(warns) or any(
                'odd line' not in x for x in self.warned):
            raise Violation('warnings of %r expected, not %r, for\n%s' % (
                warns, self.warned, text[:600]))
        self.ctx.ev((text, repr(config), encoding))
        self.ctx.sample(text)
        self.ctx.out('igts' if igts else 'empty')


def cases(tier):
    for b in range(NB):
        yield ['words', b]
    for b in range(NB):
        yield ['lines', b]
    for b in range(NB):
        yield ['records', b]
    for n in sizes.SIZES if tier == 'thorough' else LADDER:
        for part in range(sizes.parts(n)):
            yield ['size', n, part]
    yield ['text']
    yield ['config']


def run(case, ctx):
    w = World(ctx)
    {'words': words, 'lines': lines, 'records': records, 'text': texts,
     'config': configs, 'size': large}[case[0]](w, *case[1:])


# -------------------------------------------------------------- (a) words

MORPHS = ['a', 'b', 'ab', 'a-', '-b', '=a', '-']


def segmentations(thorough):
    ms = MORPHS + (['ba', '-ab-'] if thorough else [])
    for n in range(1, 6 if thorough else 5):
        for w in itertools.product('ab-', repeat=n):
            w = ''.join(w)
            for k in (1, 2, 3) + ((4,) if thorough and n < 5 else ()):
                for m in itertools.product(ms if k < 4 else ms[:6], repeat=k):
                    yield w, m
    # every boundary character, before, after and on both sides
    for w in ['ab', 'aab', 'aba', 'bab', 'a~b', 'a.b', '.ab', 'a=b~']:
        for x, y in itertools.product(['', '-', '=', '~', '.', '~.', ':', '+', '_', '*'], repeat=2):
            one, two = ([m for t in 'ab' for m in {t + c, c + t, c + t + c}] for c in (x, y))
            for m in itertools.product(sorted(one), sorted(two)):
                yield w, m
                if thorough or x == y:
                    yield w, m + (one[0],)
    for w in ['\u0130ab', 'ab\u0130', 'a\u0130b', '\u0130', '\u0130-a\u0130b', '\u03a3\u0391\u03a3']:
        for k in (1, 2, 3):
            for m in itertools.product(['\u0130', '\u0130a', 'i\u0307', 'a', 'b', 'ab', '-b',
                                        '\u03c3', '\u03b1\u03c2', '\u03b1\u03c3'], repeat=k):
                yield w, m
    for w in ['AB', 'Ab', 'aB-', 'A-B']:
        for k in (1, 2):
            for m in itertools.product(ms + ['A', 'B'], repeat=k):
                yield w, m
    for w in ['abcd-e-f-g', "jack-o'-lantern", 'witches', 'horrify', 'ab-cd-ef-gh', 'brooms']:
        for k in range(1, 5):
            for m in itertools.product(['abcd', 'e', 'jack', "o'", 'lantern', 'witch', '-es',
                                        'horror', '-ify', 'broom', 's', 'f', 'ab', '-cd', 'g']
                                       if k < 3 else ['abcd', 'e', 'f', 'g'] if k == 4 else
                                       ['jack', "o'", 'lantern', 'ab', 'cd', 'ef'], repeat=k):
                yield w, m


def words(w, b):
    cur, text, igts, n = [], '\\_sh v3.0  400  Text\n', [], 0

    def flush(final=False):
        nonlocal cur, text, igts
        if cur:
            rec = [(wd, [(m, 'G%d' % k, 'N') for k, m in enumerate(ms)]) for wd, ms in cur]
            ls = interlinear(rec)
            i = 'r%d' % len(igts)
            text += '\\ref %s\n\\t %s\n\\m %s\n\\g %s\n\\p %s\n\n' % tuple([i] + ls)
            data = {'\\t': [x for x, _ in rec],
                    '\\m': [[m for m, _, _ in ms] for _, ms in rec],
                    '\\g': [[g] for _, ms in rec for _, g, _ in ms],
                    '\\p': [[p] for _, ms in rec for _, _, p in ms]}
            igts.append(igt(i, *expected_tiers(['\\t', '\\m', '\\g', '\\p'], data)))
            cur = []
        if final or len(igts) == 8:
            w.check(text, igts)
            w.ctx.traces += len(igts)
            text, igts = '\\_sh v3.0\n', []
    for k, x in enumerate(segmentations(w.ctx.thorough)):
        if (k // 12) % NB != b:
            continue
        cur.append(x)
        if len(cur) == 12:
            flush()
    flush(True)


# -------------------------------------------------------------- (b) lines

LINES = [('\\t', 'ab cd'), ('\\m', 'ab c  -d'), ('\\g', 'A  B  C'), ('\\p', 'N  V  suf'),
         ('\\f', 'free  "tr" & <x>'), ('\\f', 'more'), ('\\x', 'unmapped'), ('\\t', ''),
         ('\\m', ''), ('\\f', ''), ('\\g', ''), ('\\id2', 'other')]


def line_data(ls):
    """What the lines say, for lines in any order."""
    order, texts = [], {}
    for m, t in ls:
        if m not in order:
            order.append(m)
            texts[m] = []
        if t:
            texts[m].append(t)
    data = {}
    for m in order:
        ts = texts[m]
        i = order.index(m)
        before = order[:i]
        tgt = {'\\m': '\\t', '\\g': '\\m', '\\p': '\\m'}.get(m)
        if not ts:
            data[m] = None
        elif m == '\\t':
            data[m] = ['ab', 'cd']
        elif m in ('\\f', '\\x', '\\id2'):
            data[m] = ' '.join(ts)
        else:
            toks = {'\\m': ['ab', 'c', '-d'], '\\g': ['A', 'B', 'C'],
                    '\\p': ['N', 'V', 'suf']}[m]
            if tgt in before and data[tgt] is not None:
                data[m] = [[toks[0]], toks[1:]] if m == '\\m' else [[x] for x in toks]
            else:
                data[m] = [toks]
    return order, data


def known(order, data):
    """The target's items are known: the tier aligned to was there before."""
    for m, tgt in (('\\m', '\\t'), ('\\g', '\\m'), ('\\p', '\\m')):
        if m in order and tgt in order and order.index(tgt) < order.index(m) and \
                data[tgt] is None and data[m] is not None:
            return False
    return True


def lines(w, b):
    k = 0
    text, igts = '', []
    for n in range(5):
        for ls in itertools.permutations(LINES, n):
            k += 1
            if k % NB != b or (n == 4 and not w.ctx.thorough and (k // NB) % 3):
                continue
            # repeated interlinear lines are blocks: only whole ones are meant
            ms = [m for m, _ in ls]
            if any(ms.count(m) > 1 for m in ('\\t', '\\m', '\\g')):
                continue
            order, data = line_data(ls)
            if not known(order, data):
                continue
            # nothing to align with: no tier of the target
            tiers = expected_tiers(order, data)
            i = 'r%d' % len(igts)
            text += '\\ref %s\n%s\n' % (i, ''.join('%s %s\n' % l for l in ls))
            igts.append(igt(i, *tiers))
            if len(igts) == 16:
                w.check(text, igts)
                w.ctx.traces += 16
                text, igts = '', []
    if igts:
        w.check(text, igts)


# ------------------------------------------------------------ (c) records

BODY = '\\t ab cd\n\\m ab cd\n\\f free\n'


def body():
    return expected_tiers(['\\t', '\\m', '\\f'], {'\\t': ['ab', 'cd'],
                                                 '\\m': [['ab'], ['cd']], '\\f': 'free'})


KINDS = ['plain', 'empty', 'number', 'nonascii', 'spaced', 'id', 'header', 'bad', 'warn',
         'long', 'wrapped', 'punct']


def record(kind, n):
    """(text, igt id or None, fails, igt or None, sets id)"""
    k = '%s%d' % ('abcdef'[n], n)
    if kind == 'plain':
        return '\\ref %s\n%s' % (k, BODY), k, body()
    if kind == 'empty':
        return '\\ref %s\n' % k, k, []
    if kind == 'number':
        return '\\ref 00%d\n%s' % (n, BODY), 'igt00%d' % n, body()
    if kind == 'nonascii':
        return '\\ref \u00e9%d\n%s' % (n, BODY), 'igt\u00e9%d' % n, body()
    if kind == 'spaced':
        return '\\ref  %s.1-x_y  \n\n%s' % (k, BODY.replace('\n', ' \n')), k + '.1-x_y', body()
    if kind == 'id':
        return '\\id text%d\n' % n, None, None
    if kind == 'header':
        return '\\_sh v3.0  400  Text\n\\t stray\n', None, None
    if kind == 'bad':
        return '\\ref %s\n\\t ab cd\n\\m !error\n\\f free\n' % k, k, 'fails'
    if kind == 'warn':
        return '\\ref %s\n\\t ab\n\\f !warning\n' % k, k, expected_tiers(
            ['\\t', '\\f'], {'\\t': ['ab'], '\\f': '!warning'})
    if kind == 'long':
        ws = ['w%d' % i for i in range(30)]
        return '\\ref %s\n\\t %s\n\\m %s\n' % (k, ' '.join(ws), ' '.join(ws)), k, \
            expected_tiers(['\\t', '\\m'], {'\\t': ws, '\\m': [[x] for x in ws]})
    if kind == 'wrapped':
        return ('\\ref %s\n\\t ab  cd\n\\m a b cd\n\\g A B C\n\\t ef\n\\m ef\n\\g E\n\\f one\n'
                '\\f two\n' % k), k, expected_tiers(
            ['\\t', '\\m', '\\g', '\\f'],
            {'\\t': ['ab', 'cd', 'ef'], '\\m': [['a', 'b'], ['cd'], ['ef']],
             '\\g': [['A'], ['B'], ['C'], ['E']], '\\f': 'one two'})
    return '\\ref -%s\n%s' % (k, BODY), 'igt-' + k, body()


def records(w, b):
    k = 0
    for n in range(5 if w.ctx.thorough else 4):
        for kinds in itertools.product(KINDS, repeat=n):
            k += 1
            if k % NB != b:
                continue
            text, igts, cid, errors, warns, inrec = '', [], None, [], [], False
            for i, kind in enumerate(kinds):
                t, name, tiers = record(kind, i)
                if kind == 'header' and inrec:
                    continue  # would belong to the record before
                text += t
                if kind == 'id':
                    cid = 'text%d' % i
                    inrec = False
                elif kind != 'header':
                    inrec = True
                    if tiers == 'fails':
                        errors.append(name)
                    else:
                        if kind == 'warn':
                            warns.append(name)
                        igts.append(igt(name, *tiers, attrs={'corpus-id': cid} if cid else {}))
            w.check(text, igts, None if k % 2 else {}, errors=errors, warns=warns)


# ------------------------------------------------------------------ sizes

LADDER = (5, 9, 10, 11, 16, 17, 33, 65, 101, 129)


def large(w, n, part):
    """n words, morphemes, characters, wrapped blocks, lines of text or records, with
    something else at every (boundary) position."""
    def one(rec, free='tr', tail=''):
        ls = interlinear(rec)
        data = {'\\t': [x for x, _ in rec], '\\m': [[m[0] for m in ms] for _, ms in rec],
                '\\g': [[m[1]] for _, ms in rec for m in ms],
                '\\p': [[m[2]] for _, ms in rec for m in ms], '\\f': free}
        w.check('\\ref r1\n\\t %s\n\\m %s\n\\g %s\n\\p %s\n' % tuple(ls) +
                (tail or '\\f %s\n' % free),
                [igt('r1', *expected_tiers(['\\t', '\\m', '\\g', '\\p', '\\f'], data))])
    for p in sizes.positions(n, part):
        # words: one has three morphemes, one stands there again
        word = lambda i: ('ab%d' % i, [('ab%d' % i, 'G%d' % i, 'N')])
        rec = [word(i) for i in range(n)]
        rec[p] = ('abcab', [('ab', 'G', 'N'), ('c', 'H', 'V'), ('ab', 'G', 'N')])
        one(rec)
        rec[p] = rec[(p * 2) % n]
        one(rec)
        # morphemes of a word: one that is not in the word, one of another length
        ms = [('ab', 'G%d' % i, 'N') for i in range(n)]
        ms[p] = ('zz', 'Z', 'V')
        one([('ab' * n, ms), ('x', [('x', 'X', 'N')])])
        ms[p] = ('c' * 5, 'Z', 'V')
        one([('x', [('x', 'X', 'N')]), (''.join(m for m, _, _ in ms), ms)])
        # characters of a word: cut in two
        if p:
            s = ''.join('abcd'[i % 4] for i in range(n))
            one([(s, [(s[:p], 'G', 'N'), ('-' + s[p:], 'H', 'V')]), ('x', [('x', 'X', 'N')])])
            one([(s[:p] + '-' + s[p:], [(s[:p] + '-', 'G', 'N'), (s[p:], 'H', 'V')])])
        # lines of text
        ts = ['l%d' % i for i in range(n)]
        ts[p] = ts[0]
        one([word(0), word(1)], ' '.join(ts), ''.join('\\f %s\n' % x for x in ts))
        # wrapped blocks
        text, data = '\\ref r1\n', {'\\t': [], '\\m': [], '\\g': []}
        for i in range(n):
            two = i == p
            ls = interlinear([('ab%d' % i, [('ab', 'G', 'N'), ('%d' % i, 'H', 'V')] if two else
                               [('ab%d' % i, 'G%d' % i, 'N')]), ('q', [('q', 'Q', 'X')])])
            text += '\\t %s\n\\m %s\n\\g %s\n' % tuple(ls[:3])
            data['\\t'] += ['ab%d' % i, 'q']
            data['\\m'] += [['ab', str(i)] if two else ['ab%d' % i], ['q']]
            data['\\g'] += [['G'], ['H']] if two else [['G%d' % i]]
            data['\\g'].append(['Q'])
        w.check(text + '\\f end\n', [igt('r1', *expected_tiers(
            ['\\t', '\\m', '\\g', '\\f'], dict(data, **{'\\f': 'end'})))])
        # records: one fails, one warns, the corpus name changes
        text, igts, errors, warns, cid = '\\id t0\n', [], [], [], 't0'
        for i in range(n):
            k = 'r%d' % i
            if i == p:
                text += '\\ref %s\n\\t ab\n\\m !error\n' % k
                errors.append(k)
                continue
            if i == n - 1 - p:
                text += '\\ref %s\n\\t ab\n\\f !warning\n\\id t1\n' % k
                warns.append(k)
                ts = expected_tiers(['\\t', '\\f'], {'\\t': ['ab'], '\\f': '!warning'})
            else:
                text += '\\ref %s\n%s' % (k, BODY)
                ts = body()
            igts.append(igt(k, *ts, attrs={'corpus-id': cid}))
            if i == n - 1 - p:
                cid = 't1'
        w.check(text, igts, errors=errors, warns=warns)


# --------------------------------------------------------- text, settings

def texts(w):
    toks = ['\u00e9t\u00e9', '\u4e2d\u6587', '\U0001f600', 'a', '"&<>', "o'o", '\u0905\u092e',
            'x\u0301']
    for enc in ('utf-8', 'utf-8', 'iso-8859-1'):
        ts = toks if enc == 'utf-8' else ['\u00e9t\u00e9', 'a', '\u00fcb', '"&<>']
        for a, b, c in itertools.product(ts, repeat=3):
            rec = [(a, [(b, c, 'N'), (c, a, 'V')]), (b, [(a, b, c)]), (c, [(b, b, 'X')] * 2)]
            ls = interlinear(rec, enc)
            data = {'\\t': [x for x, _ in rec],
                    '\\m': [[m for m, _, _ in ms] for _, ms in rec],
                    '\\g': [[g] for _, ms in rec for _, g, _ in ms],
                    '\\p': [[p] for _, ms in rec for _, _, p in ms], '\\f': a + ' ' + b}
            text = '\\id %s\n\\ref r1\n\\t %s\n\\m %s\n\\g %s\n\\p %s\n\\f %s\n' % tuple(
                [c] + ls + [a + ' ' + b])
            w.check(text, [igt('r1', *expected_tiers(['\\t', '\\m', '\\g', '\\p', '\\f'], data),
                               attrs={'corpus-id': c})], None, enc)


def configs(w):
    text = ('\\c ctx\n\\n r1\n\\tx ab cd\n\\mb ab cd\n\\ge A  B\n\\ft free\n\\nt note\n'
            '\\n r2\n\\ft only\n')
    full = {'\\tx': 'x', '\\mb': 'y', '\\ge': 'z', '\\ft': 'f', '\\nt': 'n'}
    types = {'q': {'type': 'phrases'}, 'x': {'type': 'words', 'interlinear': True},
             'y': {'type': 'morphemes', 'interlinear': True},
             'z': {'type': 'glosses', 'interlinear': True}, 'f': {'type': 'translations'},
             'n': {'type': 'notes'}}
    plain = {k: v['type'] for k, v in types.items()}
    aligns = {'x': ['segmentation', 'q'], 'y': ['segmentation', 'x'], 'z': ['alignment', 'y'],
              'f': ['alignment', 'q']}
    data = {'\\tx': ['ab', 'cd'], '\\mb': [['ab'], ['cd']], '\\ge': [['A'], ['B']],
            '\\ft': 'free', '\\nt': 'note'}
    for keep in itertools.product([0, 1], repeat=5):
        tm = {m: t for k, (m, t) in zip(keep, full.items()) if k}
        for phrase in (['x', 'q'], None, ['n', 'q'], ['x', 'p9']):
            for amap in ({}, {'\\c': 'ctx'}, {'\\nt': 'note', '\\n': 'name', '\\c': 'c'}):
                if phrase and phrase[0] == 'n' and '\\nt' in tm:
                    continue
                cfg = {'record_markers': ['\\c', '\\n'], 'igt_attribute_map': amap,
                       'tier_map': tm, 'make_phrase_tier': phrase, 'tier_types': types,
                       'alignments': aligns}
                d = dict(data)
                inter = [m for m in ('\\tx', '\\mb', '\\ge') if m in tm]
                if '\\mb' in tm and '\\tx' not in tm:
                    d['\\mb'] = [['ab', 'cd']] if '\\ge' in tm else 'ab cd'
                if '\\ge' in tm and '\\mb' not in tm:
                    d['\\ge'] = 'A  B'
                if '\\tx' in tm and '\\mb' not in tm:
                    continue  # words that nothing is aligned with are not tokens
                ts = expected_tiers(list(full), d, tm, phrase, plain, aligns)
                ts2 = expected_tiers(['\\ft'], {'\\ft': 'only'}, tm, phrase, plain, aligns)
                vals = [{'\\c': 'ctx', '\\n': 'r1', '\\nt': 'note'}, {'\\c': 'ctx', '\\n': 'r2'}]
                gs = [igt(i, *t, attrs={amap[m]: v for m, v in vs.items() if m in amap})
                      for i, t, vs in (('r1', ts, vals[0]), ('r2', ts2, vals[1]))]
                if sum(keep) % 2:
                    cfg['error_recovery_method'] = ['strict', 'greedy'][keep[0]]
                w.check(text, gs, cfg)
                if inter:
                    w.ctx.traces += 1
    # a phrase line that is no line of words: the words are still one sequence
    text = ('\\n r1\n\\ph ab cd\n\\tx ab  cd\n\\mb a b cd\n\\ge A B C\n\\ft free\n'
            '\\n r2\n\\ph ef\n\\ft only\n')
    for types2, phr in ((types, '\\ph'),
                        (dict(types, q={'type': 'phrases', 'interlinear': False}), '\\ph'),
                        (dict(types, f={'type': 'translations', 'interlinear': False}), '\\ph')):
        tm = {'\\ph': 'q', '\\tx': 'x', '\\mb': 'y', '\\ge': 'z', '\\ft': 'f'}
        cfg = {'record_markers': ['\\n'], 'tier_map': tm, 'make_phrase_tier': None,
               'tier_types': types2, 'alignments': aligns}
        d = {'\\ph': 'ab cd', '\\tx': ['ab', 'cd'], '\\mb': [['a', 'b'], ['cd']],
             '\\ge': [['A'], ['B'], ['C']], '\\ft': 'free'}
        ts = expected_tiers(list(tm), d, tm, None, plain, aligns)
        ts2 = expected_tiers(['\\ph', '\\ft'], {'\\ph': 'ef', '\\ft': 'only'}, tm, None, plain,
                             aligns)
        w.check(text, [igt('r1', *ts), igt('r2', *ts2)], cfg)
