"""C16: formats, files, encodings and layouts carry the same content."""
import io
import itertools
import json
import os
import pathlib
from mc import docs, xmlref, jsonref
from mc.core import Violation
from mc.dom import build, snap, diff, corpus, full_igt, metadata, meta, mc, igt, tier, item
from xigt.codecs import xigtxml, xigtjson
from xigt import XigtCorpus
from xigt.errors import XigtError

ID = 'C16'
LEVEL = 'exploration'
RULE = ('(a) every document of the C14 families converted XML -> JSON -> XML and JSON -> '
        'XML -> JSON; (b) documents x every way of writing (string, path, path object, '
        'binary and text files, in-memory files, replacing longer and shorter files, between other text) x '
        'encodings x indentation x every way of reading; (c) reads that return the '
        'document in every chunk size and split at every single and double position; (d) every proper prefix and suffix of documents is refused; (e) something of several '
        'bytes at every position across the end of blocks of 1 to 128 KiB; '
        'distinct = distinct (document, route)')
ASSUMPTIONS = ['as C14; text-mode files are UTF-8']
NB = 48
JSONENC = ['utf-8-sig', 'utf-16', 'utf-16-le', 'utf-16-be', 'utf-32', 'utf-32-be']
XMLENC = ['utf-8', 'us-ascii', 'utf-16', 'iso-8859-1', 'unicode']
INDENTS = [2, 0, 1, 4, None]


def small():
    yield corpus()
    yield corpus(full_igt(), id='c', type='q', md=[metadata(
        meta(mc('a', mc('b', text='x'), attrs={'q': '1'}), type='n'), type='xigt-meta')],
        nsmap={'a': docs.A}, attrs={'{%s}k' % docs.A: 'v'})
    yield from docs.texts(1)
    for i, d in enumerate(docs.with_nested(1)):
        if i < 10:
            yield d
    for i, d in enumerate(docs.structures()):
        if i < 40:
            yield d
    yield corpus(*[full_igt('g%d' % i) for i in range(60)])


def cases(tier):
    n = sum(1 for _ in small())
    for i in range(n):
        for enc in XMLENC:
            yield ['io', i, enc]
    for i in range(6):
        for b in range(16):
            yield ['chunks', i, b]
        yield ['trunc', i]
    for b in BUFFERS if tier == 'quick' else BUFFERS + (262144, 1048576):
        yield ['buffer', b]
    yield ['types']
    fams = ['fields.' + k for k in docs.KINDS]
    fams += ['struct', 'nested1', 'nested2', 'nscore', 'nsmd', 'siblings', 'wide', 'text']
    if tier == 'thorough':
        fams += ['nested3']
    for f in fams:
        for b in range(NB):
            yield ['x', f, b]


def fam(name, big):
    if name.startswith('fields.'):
        return docs.fields(name[7:])
    return {'struct': lambda: docs.structures(big),
            'nscore': docs.namespaces_core, 'siblings': docs.siblings, 'wide': docs.wide,
            'nsmd': lambda: docs.namespaces_md(big),
            'text': lambda: docs.texts(3 if big else 2)}.get(
                name, lambda: docs.with_nested(int(name[6:])))()


def run(case, ctx):
    if case[0] == 'x':
        for k, s in enumerate(fam(case[1], ctx.thorough)):
            if k % NB == case[2]:
                cross(s, ctx)
        return
    if case[0] == 'types':
        return types(ctx)
    if case[0] == 'buffer':
        return buffers(case[1], ctx)
    if case[0] == 'trunc':
        return trunc(case[1], ctx)
    if case[0] == 'chunks':
        return chunks(case[1], case[2], ctx)
    for i, s in enumerate(small()):
        if i == case[1]:
            return channels(s, case[2], ctx)


def need(want, got, what):
    xmlref.nsdiff(want, got, (docs.DC,))
    r = diff(want, got)
    if r:
        raise Violation('%s: %s' % (what, r))


def cross(s, ctx):
    want = xmlref.expected(s)
    a = xigtxml.loads(xmlref.write(s))
    j = xigtjson.dumps(a)
    b = xigtjson.loads(j)
    x = xigtxml.dumps(b)
    c = xigtxml.loads(x)
    if not (a == b and b == c and a == c):
        raise Violation('XML -> JSON -> XML changes the corpus: %s\n%s'
                        % (diff(snap(a), snap(c)), x[:800]))
    need(want, snap(b), 'XML -> JSON')
    need(want, snap(c), 'XML -> JSON -> XML')
    b2 = xigtjson.loads(json.dumps(jsonref.write(s, 'p')))
    c2 = xigtxml.loads(xigtxml.dumps(b2))
    need(want, snap(c2), 'JSON -> XML')
    need(want, snap(xigtjson.loads(xigtjson.dumps(c2))), 'JSON -> XML -> JSON')
    ctx.ev(('x', s))


BUFFERS = (1024, 4096, 8192, 16384, 32768, 65536, 131072)


def buffers(size, ctx):
    """Something of several bytes at every position across the end of a block."""
    d = ctx.tmp()
    f = os.path.join(d, 'f')
    for c in ('\u00e9', '\u20ac', '\U0001f600', '<', '&', '"', '\n', '\x85', ''):
        for off in range(-8, 2):
            def doc(n):
                t = 'x' * n + 'Q' + (c + 'q' + c + 'y' if c else '')
                return corpus(igt('g', tier('t', item('a', t), item('b', 'z'))), id='c')
            for fmt, lib in (('xml', xigtxml), ('json', xigtjson)):
                for asc in (False, True) if fmt == 'json' else (False,):
                    def raw(s):
                        return (xmlref.write(s) if fmt == 'xml' else json.dumps(
                            jsonref.write(s, 'p'), ensure_ascii=asc)).encode()
                    s = doc(size + off - raw(doc(1)).index(b'xQ') - 1)
                    r = raw(s)
                    assert r.index(b'xQ') == size + off - 2
                    want = xmlref.expected(s)
                    what = '%s of %d bytes, %r near byte %d' % (fmt, len(r), c, size)
                    with open(f, 'wb') as fh:
                        fh.write(r)
                    need(want, snap(lib.load(f)), what + ' [path]')
                    with open(f, 'rb') as fh:
                        need(want, snap(lib.load(fh)), what + ' [file]')
                    need(want, snap(lib.load(io.BytesIO(r), mode='incremental')), what + ' [memory]')
                    with open(f, encoding='utf-8', newline='') as fh:
                        need(want, snap(lib.load(fh)), what + ' [text]')
                    xc = lib.loads(r.decode())
                    need(want, snap(xc), what + ' [string]')
                    lib.dump(f, xc)
                    need(want, snap(lib.load(f)), what + ' [dumped]')
                    ctx.ev(('buffer', size, c, off, fmt, asc))
            ctx.out('buffer')


class Short(io.RawIOBase):
    """A binary stream whose read returns the data cut at given positions."""
    def __init__(self, data, cuts):
        self.parts = []
        last = 0
        for c in list(cuts) + [len(data)]:
            if c > last:
                self.parts.append(data[last:c])
                last = c

    def readable(self):
        return True

    def read(self, n=-1):
        if not self.parts:
            return b''
        if n is None or n < 0:
            r = b''.join(self.parts)
            self.parts = []
            return r
        p = self.parts.pop(0)
        if len(p) > n:
            self.parts.insert(0, p[n:])
            p = p[:n]
        return p


def xml_writers(xc, p, enc, ind):
    """(name, bytes or str written)"""
    kw = dict(encoding=enc, indent=ind)
    yield 'dumps', lambda: xigtxml.dumps(xc, **kw)

    def path():
        xigtxml.dump(p, xc, **kw)
        return open(p, 'rb').read()
    yield 'path', path

    def pathobj():
        xigtxml.dump(pathlib.Path(p), xc, **kw)
        return open(p, 'rb').read()
    yield 'path object', pathobj

    def longer():
        with open(p, 'wb') as fh:
            fh.write(b'#' * 5000)
        xigtxml.dump(p, xc, **kw)
        return open(p, 'rb').read()
    yield 'over a longer file', longer
    if enc != 'unicode':
        def binary():
            with open(p, 'wb') as fh:
                xigtxml.dump(fh, xc, **kw)
            return open(p, 'rb').read()
        yield 'binary file', binary

        def mem():
            b = io.BytesIO()
            xigtxml.dump(b, xc, **kw)
            return b.getvalue()
        yield 'BytesIO', mem
    else:
        def smem():
            b = io.StringIO()
            xigtxml.dump(b, xc, **kw)
            return b.getvalue()
        yield 'StringIO', smem

    def text():
        with open(p, 'w', encoding='utf-8') as fh:
            xigtxml.dump(fh, xc, **kw)
        return open(p, 'rb').read()
    yield 'text file', text

    def within(mode):
        """The document is written where the file stands, between other text."""
        a, z = 'before\n', 'after\n'
        if mode[-1] == 'b':
            a, z = a.encode(), z.encode()
        with open(p, 'wb') as fh:
            fh.write(b'begin\n')
        with open(p, mode, **({} if mode[-1] == 'b' else
                              {'encoding': 'utf-8', 'newline': ''})) as fh:
            fh.write(a)
            xigtxml.dump(fh, xc, **kw)
            fh.write(z)
        data = open(p, 'rb').read()
        a, z = b'before\n', b'after\n'
        if mode[0] == 'a':
            a = b'begin\n' + a
        if not data.startswith(a) or not data.endswith(z):
            raise Violation('XML, mode %s, encoding=%s: written at the wrong place: %r ... '
                            '%r' % (mode, enc, data[:60], data[-60:]))
        return data[len(a):-len(z)]
    for mode in ('w', 'a') + (('wb', 'ab') if enc != 'unicode' else ()):
        yield 'file of mode %s between text' % mode, lambda: within(mode)


def channels(s, enc, ctx):
    d = ctx.tmp()
    p = os.path.join(d, 'f')
    q = os.path.join(d, 'g')
    xc = build(s)
    want = snap(xigtxml.loads(xigtxml.dumps(xc)))
    jwant = snap(xigtjson.loads(xigtjson.dumps(xc)))
    indents = INDENTS if ctx.thorough or len(s['kids']) < 9 else [2]
    for ind in indents:
        for name, fn in xml_writers(xc, p, enc, ind):
            data = fn()
            what = 'XML, %s, encoding=%s, indent=%r' % (name, enc, ind)
            if isinstance(data, str):
                if enc != 'unicode':
                    raise Violation(what + ': a str was written')
                raw = data.encode('utf-8')
            else:
                raw = data
                if name == 'dumps' and enc == 'unicode':
                    raise Violation(what + ': dumps(encoding="unicode") returns bytes')
            need(xmlref.expected(s), xmlref.read(raw), what + ' (independent reader)')
            for rname, got in xml_readers(data, raw, q, enc):
                need(want, snap(got), what + ', read from ' + rname)
                ctx.ev((s, enc, ind, name, rname))
    for ind in indents if enc == 'utf-8' else ():
        texts = []
        texts.append(('dumps', xigtjson.dumps(xc, indent=ind)))
        xigtjson.dump(p, xc, indent=ind)
        texts.append(('path', open(p).read()))
        with open(p, 'w') as fh:
            xigtjson.dump(fh, xc, indent=ind)
        texts.append(('text file', open(p).read()))
        b = io.StringIO()
        xigtjson.dump(b, xc, indent=ind)
        texts.append(('StringIO', b.getvalue()))
        for mode in ('w', 'a'):
            with open(p, 'w') as fh:
                fh.write('1')
            with open(p, mode) as fh:
                fh.write('2')
                xigtjson.dump(fh, xc, indent=ind)
                fh.write('3')
            t = open(p).read()
            if not t.startswith('12' if mode == 'a' else '2') or not t.endswith('3'):
                raise Violation('JSON, mode %s: written at the wrong place: %r ... %r'
                                % (mode, t[:60], t[-60:]))
            texts.append(('between text', t[1 + (mode == 'a'):-1]))
        with open(p, 'w') as fh:
            fh.write('#' * 9000)
        xigtjson.dump(p, xc, indent=ind)
        texts.append(('over a longer file', open(p).read()))
        for name, t in texts:
            with open(q, 'w', encoding='utf-8') as fh:
                fh.write(t)
            r = [('string', xigtjson.loads(t)), ('bytes', xigtjson.loads(t.encode())),
                 ('path', xigtjson.load(q)), ('StringIO', xigtjson.load(io.StringIO(t))),
                 ('BytesIO', xigtjson.load(io.BytesIO(t.encode())))]
            with open(q) as fh:
                r.append(('text file', xigtjson.load(fh)))
            with open(q, 'rb') as fh:
                r.append(('binary file', xigtjson.load(fh)))
            for e in JSONENC:
                raw = t.encode(e)
                with open(q, 'wb') as fh:
                    fh.write(raw)
                r.append((e + ' bytes', xigtjson.loads(raw)))
                r.append((e + ' BytesIO', xigtjson.load(io.BytesIO(raw))))
                with open(q, 'rb') as fh:
                    r.append((e + ' binary file', xigtjson.load(fh)))
                with open(q, encoding=e) as fh:
                    r.append((e + ' text file', xigtjson.load(fh)))
            for rname, got in r:
                need(jwant, snap(got), 'JSON, %s, indent=%r, read from %s'
                     % (name, ind, rname))
                ctx.ev((s, 'json', ind, name, rname))
    ctx.sample(s)


def xml_readers(data, raw, q, enc):
    yield ('bytes' if data is raw else 'string'), xigtxml.loads(data)
    yield 'bytes', xigtxml.loads(raw)
    with open(q, 'wb') as fh:
        fh.write(raw)
    yield 'path', xigtxml.load(q)
    yield 'path object', xigtxml.load(pathlib.Path(q))
    with open(q, 'rb') as fh:
        yield 'binary file', xigtxml.load(fh)
    yield 'BytesIO', xigtxml.load(io.BytesIO(raw))
    if enc in ('utf-8', 'us-ascii', 'unicode'):
        with open(q, encoding='utf-8') as fh:
            yield 'text file', xigtxml.load(fh)
        yield 'StringIO', xigtxml.load(io.StringIO(raw.decode('utf-8')))
        yield 'string', xigtxml.loads(raw.decode('utf-8'))


def trunc(i, ctx):
    """Every proper prefix of a document is refused."""
    s = [corpus(igt('i', tier('t', item('a', '\u00e9<\U0001d11e'))), nsmap={'a': docs.A},
                attrs={'{%s}k' % docs.A: '\u3042'}, md=[metadata(meta(mc('igt')))]),
         corpus(igt('i'), igt('j')), corpus()][i // 2]
    xc = build(s)
    for mod, raw in ((xigtxml, xigtxml.dumps(xc, encoding='utf-8', indent=[None, 2][i % 2])),
                     (xigtjson, xigtjson.dumps(xc, indent=[None, 2][i % 2]).encode())):
        raw = raw.strip()
        p = os.path.join(ctx.tmp(), 'f')
        for n in range(len(raw)):
            part = raw[:n]
            with open(p, 'wb') as fh:
                fh.write(part)
            for what, fn in (('loads', lambda: mod.loads(part)), ('load', lambda: mod.load(p)),
                             ('load', lambda: mod.load(io.BytesIO(part))),
                             ('load of its second half', lambda: mod.loads(raw[n + 1:]))):
                try:
                    got = fn()
                except Exception:
                    ctx.out('refused')
                else:
                    raise Violation('%s.%s accepts the truncated document %r as %d igts'
                                    % (mod.__name__, what, part, len(got)))
                ctx.ev(('trunc', i, mod.__name__, n, what))


def chunks(i, b, ctx):
    ds = [corpus(igt('i', tier('t', item('a', '\u00e9<\U0001d11e'))), nsmap={'a': docs.A},
                 attrs={'{%s}k' % docs.A: '\u3042'}, md=[metadata(meta(mc('igt')))]),
          corpus(igt('i', tier('t', item('a', 'x&y'), item('b', 'z'))), igt('j')),
          corpus(full_igt())]
    s = ds[i // 2]
    enc = ['utf-8', 'utf-16'][i % 2]
    xc = build(s)
    doc = xigtxml.dumps(xc, encoding=enc, indent=None if i < 4 else 2)
    want = snap(xc)
    n = len(doc)
    cutlists = [[c] for c in range(1, n)]
    cutlists += [list(range(k, n, k)) for k in range(1, n)]
    lim = n if ctx.thorough else min(n, 90)
    cutlists += [[a, b] for a in range(1, lim) for b in range(a + 1, lim)]
    for cuts in cutlists[b::16]:
        got = xigtxml.load(Short(doc, cuts))
        r = diff(want, snap(got))
        if r:
            raise Violation('reading in pieces cut at %r: %s\n%r' % (cuts[:5], r, doc))
        ctx.ev((i, tuple(cuts)))
    if b:
        return
    j = xigtjson.dumps(xc).encode()
    jw = snap(xigtjson.loads(j))
    for k in list(range(1, 40)):
        got = xigtjson.load(Short(j, list(range(k, len(j), k))))
        need(jw, snap(got), 'JSON read in pieces of %d' % k)
        ctx.ev((i, 'json', k))


def types(ctx):
    """Only corpora can be dumped; nothing is written otherwise.  Only corpora
    can be loaded."""
    d = ctx.tmp()
    for t in ['<igt/>', '<a/>', '<a><igt/></a>', '<tier><igt id="i"><tier/></igt></tier>',
              '<xigt-corpora><igt/></xigt-corpora>', '<a><xigt-corpus/></a>',
              '<a><xigt-corpus><igt/></xigt-corpus></a>', '<a>text</a>']:
        for mode in ('full', 'incremental', 'transient'):
            try:
                xigtxml.load(io.BytesIO(t.encode()), mode=mode)
            except StopIteration:
                raise Violation('loading %r raises StopIteration' % t)
            except Exception:
                ctx.ev(('root', t, mode))
            else:
                raise Violation('loading %r (mode %s) is accepted' % (t, mode))
    for bad in [None, 'x', [], {}, build(igt('i')), build(tier('t')), [build(igt('i'))],
                build(metadata(meta(text='x')))]:
        for mod in (xigtxml, xigtjson):
            p = os.path.join(d, 'f')
            b = io.BytesIO()
            for what, fn in (('dumps', lambda: mod.dumps(bad)),
                             ('dump to path', lambda: mod.dump(p, bad)),
                             ('dump', lambda: mod.dump(b, bad))):
                try:
                    fn()
                except XigtError:
                    pass
                else:
                    raise Violation('%s.%s accepts %r' % (mod.__name__, what, bad))
                if os.path.exists(p) or b.getvalue():
                    raise Violation('%s.%s of %r writes something' % (mod.__name__, what, bad))
                ctx.ev(('types', mod.__name__, repr(bad)[:20], what))
