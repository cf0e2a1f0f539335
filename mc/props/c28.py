"""C28: ODIN import keeps every block, its lines and its description."""
import itertools
import json
import os
from mc import cli, sizes, stubs
stubs.install()
from mc.core import Violation
from mc.dom import corpus, igt, tier, item, metadata, meta, mc, norm, snap, diff
from xigt import main as xigt_main
from xigt.codecs import xigtxml
from xigt.importers import odin as importer
from xigt.scripts import xigt_import
from xigt.errors import XigtImportError

ID = 'C28'
LEVEL = 'exploration'
IMPORTS = ('xigt', 'xigt.importers.odin', 'xigt.scripts.xigt_import')
RULE = ('all combinations of block fields (id, language, code, header) x lines (0-3) x '
        'keep_headers; every character up to U+FFFF and samples of every plane in lines, tags, '
        'headers and languages, all pairs of 14 characters x replacements; all sequences of up '
        'to 3 blocks out of 6; n blocks, lines, characters or files (n up to 257) with something '
        'else at every (boundary) position; all sets of up to 3 files out of 8 names x suffixes x directory '
        'names x existing output (none, directory, file); the written files and the rest of the '
        'directory compared with a reference; distinct = distinct (text, configuration)')
ASSUMPTIONS = ['the odintxt library is replaced by a stand-in for the function used',
               'block ids are different and valid']
DC, OLAC = 'http://purl.org/dc/elements/1.1/', 'http://www.language-archives.org/OLAC/1.1/'
XSI = 'http://www.w3.org/2001/XMLSchema-instance'
NB = 16


def xmlchar(c):
    o = ord(c)
    return o in (9, 10, 13) or 0x20 <= o <= 0xd7ff or 0xe000 <= o <= 0xfffd or o >= 0x10000


def clean(s, rep='\ufffd'):
    return ''.join(c if xmlchar(c) else rep for c in s)


def block(i='igt1', doc='12', rng='3 5', types='L G', lang='GERMAN (deu)', code='deu',
          lines=(('3', 'L', 'ein Wort'), ('4', 'G', 'a word'))):
    return dict(i=i, doc=doc, rng=rng, types=types, lang=lang, code=code, lines=lines)


def headers(b):
    out = []
    for k, v in (('doc_id', b['doc']), ('igt_id', b['i']), ('line_range', b['rng']),
                 ('line_types', b['types']), ('language', b['lang']),
                 ('iso-639-3', b['code'])):
        if v is not None:
            out.append('%s: %s' % (k, v))
    return out


def text(blocks):
    out = []
    for b in blocks:
        out += headers(b)
        out += ['line=%s tag=%s:%s' % l for l in b['lines']]
        out.append('')
    return '\n'.join(out) + '\n'


def expected(blocks, keep=False, rep='\ufffd'):
    igts = []
    for b in blocks:
        lang = (b['lang'] or '').strip()
        ms = []
        if keep:
            ms.append(meta(id='meta1', type='odin-header',
                           text=clean('\n'.join(headers(b)), rep)))
        at = lambda c: {'{%s}type' % XSI: 'olac:language', '{%s}code' % OLAC: c}
        ms.append(meta(
            mc('subject', ns=DC, text=clean(lang, rep).title() or None,
               attrs=at((b['code'] or 'und').strip())),
            mc('language', ns=DC, text='English', attrs=at('en')),
            id='meta%d' % (len(ms) + 1)))
        igts.append(igt(b['i'], tier('r', *[
            item('r%d' % (k + 1), clean(t, rep) or None, attrs={'line': n,
                                                                'tag': clean(g, rep)})
            for k, (n, g, t) in enumerate(b['lines'])], type='odin', attrs={'state': 'raw'}),
            md=[metadata(*ms)], attrs={'doc-id': b['doc'], 'line-range': '-'.join(
                b['rng'].split()), 'tag-types': b['types']}))
    return norm(corpus(*igts, nsmap={'olac': OLAC, 'dc': DC, 'xsi': XSI}))


class World:
    def __init__(self, ctx):
        self.ctx, self.d, self.n = ctx, ctx.tmp(), 0

    def run(self, src, dst, config=None):
        self.n += 1
        args = ['-i', src, '-o', dst, '-f', 'odin']
        if config is not None:
            p = os.path.join(self.d, 'c.json')
            with open(p, 'w') as fh:
                json.dump(config, fh)
            args += ['-c', p]
        if self.n % 2:
            return cli.run(xigt_import.main, args)
        return cli.run(lambda a: xigt_main.main(), ['import'] + args)

    def check(self, blocks, config=None):
        src, dst = os.path.join(self.d, 'in.txt'), os.path.join(self.d, 'out.xml')
        with open(src, 'w', encoding='utf-8', newline='\n') as fh:
            fh.write(text(blocks))
        r = self.run(src, dst, config)
        if r.exc is not None or r.code:
            raise Violation('import of\n%s\n%r' % (text(blocks)[:600], r))
        self.compare(dst, blocks, config)

    def compare(self, path, blocks, config=None):
        with open(path, 'rb') as fh:
            data = fh.read()
        try:
            got = snap(xigtxml.loads(data))
        except Exception as e:
            raise Violation('the result cannot be read (%r)\n%s' % (e, text(blocks)[:600]))
        config = config or {}
        df = diff(expected(blocks, config.get('keep_headers', False),
                           config.get('replacement_char', '\ufffd')), got)
        if df:
            raise Violation('%s\nimport of\n%s' % (df, text(blocks)[:1200]))
        self.ctx.ev((repr(blocks), repr(config)))
        self.ctx.out('igts' if blocks else 'empty')


CHARS = ['\x00', '\x01', '\x08', '\t', '\x0b', '\x1b', '\x1f', '\x7f', '\ufffe', '\uffff',
         '\ufffd', '\U0001f600', 'a', '&']


def cases(tier):
    yield ['fields']
    for b in range(NB):
        yield ['chars', b]
    yield ['pairs']
    yield ['blocks']
    for n in sizes.SIZES if tier == 'thorough' else LADDER:
        for part in range(sizes.parts(n)):
            yield ['sizes', n, part]
    for n in range(4):
        yield ['dirs', n]


def run(case, ctx):
    w = World(ctx)
    globals()['do_' + case[0]](w, *case[1:])


def do_fields(w):
    lines = [(), (('3', 'L', 'ein Wort'),), (('3', 'L', ''), ('4', 'G+CN', '  a  <b> & "c" ')),
             (('3', 'L', 'x'), ('3', 'L', 'x'), ('5', '', ':y: line=1 tag=Z:'))]
    n = 0
    for i, lang, code, ls in itertools.product(
            ['igt1', 'i12-3', None], ['GERMAN (deu)', ' old  norse ', '\u00e9t\u00e9 A', None],
            ['deu', ' x ', None, 'de', 'deu ', 'xx-yy, deu', '?'], lines):
        for doc, rng in (('1', '1 2'), ('a.b', '10 12 ')):
            for cfg in (None, {}, {'keep_headers': True}, {'keep_headers': False}):
                n += 1
                w.check([block(i, doc, rng, 'L G', lang, code, ls)], cfg)
    w.ctx.sample(n)


def do_chars(w, b):
    chars = [chr(o) for o in list(range(0x10000)) + [p * 0x10000 + x for p in range(1, 17)
                                                     for x in (0, 1, 0xabc, 0xfffd, 0xfffe,
                                                               0xffff)]
             if not 0xd800 <= o <= 0xdfff and o not in (10, 13)]
    chars = [c for k, c in enumerate(chars) if (k // 64) % NB == b]
    for k in range(0, len(chars), 2048):
        part = chars[k:k + 2048]
        ls = tuple((str(j), 'T', 'x%sy' % c) for j, c in enumerate(part))
        w.check([block(lines=ls, lang='Latin')], None)
        # the character kept must be that character, also next to others
        w.check([block(lines=tuple((str(j), 'T', ''.join(part[j:j + 5]).strip('\x85') + 'y')
                                   for j in range(0, len(part), 5)))],
                {'replacement_char': '?'})
    for c in part[:40]:
        w.check([block(lines=(('1', 'L' + c + 'L', 'a' + c),), lang='a' + c + 'b')],
                {'keep_headers': True})


def do_pairs(w):
    for rep in (None, '?', '', '\\', '\\1', '\\g<0>', '\u00bf', '{}', '%s', '&'):
        cfg = {} if rep is None else {'replacement_char': rep}
        for keep in (False, True):
            for a in CHARS:
                ls = tuple((str(j), 'T' + b, 'x' + a + b + 'y') for j, b in enumerate(CHARS)
                           if b != '\t')
                w.check([block(lines=ls, lang='G' + a + '\x01z')], dict(cfg, keep_headers=keep))


def do_blocks(w):
    kinds = [dict(), dict(lines=()), dict(lang=None, code=None), dict(rng='10 20', doc='z'),
             dict(lines=(('1', 'L', 'only'),), rng='1 1'), dict(lines=tuple((str(i), 'M', 'l%d' % i)
                                                                 for i in range(12)))]
    for n in range(5 if w.ctx.thorough else 4):
        for ks in itertools.product(kinds, repeat=n):
            w.check([block(**dict(k, i='igt%d' % j)) for j, k in enumerate(ks)],
                    {'keep_headers': True} if n % 2 else None)


LADDER = (5, 9, 10, 11, 17, 33, 65, 101, 129, 257)


def do_sizes(w, n, part):
    """n blocks, lines, characters, languages or files with something else at every
    (boundary) position."""
    ps = sizes.positions(n, part)
    line = lambda i: (str(i), 'L%d' % (i % 3), 'l%d' % i)
    for p in ps:
        ls = [line(i) for i in range(n)]
        for odd in (('1', 'L', ''), ls[0], ('77', 'G+CR', 'a\x01b'), ('x', 'L', ls[p][2] * n)):
            ls[p] = odd
            w.check([block(lines=tuple(ls))], {'keep_headers': True} if p % 2 else None)
        w.check([block(lines=tuple(ls[:p])), block('i2', lines=tuple(ls[p:]))])
        s = ''.join('abcdefg'[i % 7] for i in range(n))
        for c in '\x01', '\ufffe', ':', '\t', '\u00e9', '\U0001f600', '&':
            x = s[:p] + c + s[p + 1:]
            w.check([block(lines=(('1', 'L', 'a' + x + 'b'), ('2', 'T' + x.replace(':', ';').replace(
                '\t', '_'), 'u')),
                           lang='L' + x + 'l', doc='d' + s[:p], types=s[:p] + 'T')],
                    {'keep_headers': True, 'replacement_char': '?'} if p % 2 else None)
        bs = [block('i%d' % i, lines=(line(i),)) for i in range(n)]
        for odd in (block('odd', lines=()), block('odd', lang=None, code=None),
                    block('odd', lines=tuple(line(i) for i in range(30))),
                    dict(bs[p - 1], i='odd')):
            bs[p] = odd
            w.check(bs, {'keep_headers': True} if p % 2 else None)
    if n > 300 or part:
        return
    # a directory of many files
    top = os.path.join(w.d, 'many')
    src, dst = os.path.join(top, 'in'), os.path.join(top, 'out')
    os.makedirs(src)
    for i in range(n):
        with open(os.path.join(src, 'f%d.txt' % i), 'w') as fh:
            fh.write(text([block('x%d' % i, lines=(line(i),))]))
    r = w.run(src, dst)
    if r.exc is not None or r.code:
        raise Violation('a directory of %d files: %r' % (n, r))
    if sorted(os.listdir(dst)) != sorted('f%d.xml' % i for i in range(n)):
        raise Violation('a directory of %d files gives %d files' % (n, len(os.listdir(dst))))
    for i in range(n):
        w.compare(os.path.join(dst, 'f%d.xml' % i), [block('x%d' % i, lines=(line(i),))])


NAMES = ['a.txt', 'b.txt', 'c.txt.txt', 'd.TXT', 'e', 'ftxt', '.txt', 'sp ace [x].txt', 'cc+.txt', 'ccc.txt']
CONTENTS = [[block()], [], [block('igt5', lines=()), block('igt6')]]


def listing(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as fh:
                out[os.path.relpath(os.path.join(p, f), d)] = fh.read()
        for x in ds:
            out[os.path.relpath(os.path.join(p, x), d) + '/'] = None
    return out


def do_dirs(w, n):
    d0 = w.d
    k = 0
    for names in itertools.combinations(NAMES, n):
        for suffix in (None, '.txt', 'txt', '.TXT', '.xyz', ' [x].txt', 't.t*t', 'c+.txt'):
            for inname in ('in', 'in [1]', 'in*'):
                for out in ('none', 'dir', 'file'):
                    k += 1
                    if inname != 'in' and k % 2 and not w.ctx.thorough:
                        continue
                    top = os.path.join(d0, 't%d' % k)
                    src, dst = os.path.join(top, inname), os.path.join(top, 'out')
                    os.makedirs(os.path.join(src, 'sub'))
                    if out == 'dir':
                        os.mkdir(dst)
                    if out == 'file':
                        with open(dst, 'w') as fh:
                            fh.write('old')
                    for j, nm in enumerate(names):
                        with open(os.path.join(src, nm), 'w', encoding='utf-8') as fh:
                            fh.write(text(CONTENTS[(j + k) % 3]))
                    before = listing(top)
                    r = w.run(src, dst, {} if suffix is None else {'input_file_suffix': suffix})
                    after = listing(top)
                    if out == 'file':
                        if not isinstance(r.exc, XigtImportError):
                            raise Violation('directory into file: %r' % r)
                        if after != before:
                            raise Violation('a refused import changed files')
                        w.ctx.out('refused')
                        continue
                    if r.exc is not None or r.code:
                        raise Violation('%r suffix %r: %r' % (names, suffix, r))
                    suf = suffix or '.txt'
                    want = {}
                    for j, nm in enumerate(names):
                        # hidden files are not matched by patterns like *.txt
                        if nm.endswith(suf) and not nm.startswith('.'):
                            want[nm[:len(nm) - len(suf)] + '.xml'] = CONTENTS[(j + k) % 3]
                    made = {p[4:]: v for p, v in after.items()
                            if p.startswith('out/') and p != 'out/'}
                    rest = {p: v for p, v in after.items() if not p.startswith('out')}
                    if rest != {p: v for p, v in before.items() if not p.startswith('out')}:
                        raise Violation('the input changed: %r' % sorted(rest))
                    if sorted(made) != sorted(want):
                        raise Violation('%r suffix %r: files %r, expected %r' % (
                            names, suffix, sorted(made), sorted(want)))
                    for f, bs in want.items():
                        w.compare(os.path.join(dst, f), bs)
                    w.ctx.out('directory')
                    w.ctx.ev((names, suffix, inname, out))
    if n == 0:
        # a file into an existing directory, and what does not exist
        src, dst = os.path.join(d0, 'f.txt'), os.path.join(d0, 'outdir')
        with open(src, 'w') as fh:
            fh.write(text([block()]))
        os.mkdir(dst)
        ind = os.path.join(d0, 'indir')
        os.mkdir(ind)
        for a, b in ((src, dst), (os.path.join(d0, 'nosuch'), os.path.join(d0, 'new')),
                     (ind, os.path.join(d0, 'new', 'sub')), (ind, os.path.join(src, 'sub'))):
            r = w.run(a, b)
            if not isinstance(r.exc, XigtImportError) or os.listdir(dst) or \
                    os.path.exists(os.path.join(d0, 'new')):
                raise Violation('%s into %s: %r' % (a, b, r))
