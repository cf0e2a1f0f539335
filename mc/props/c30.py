"""C30: an operation that fails while saving leaves the existing file as it was."""
import errno
import io
import os
import pathlib
import resource
import signal
from mc import cli, docs
from mc.core import Violation
from mc.dom import build, snap, diff, corpus, igt, tier, item, metadata, meta, mc
from xigt.codecs import xigtxml, xigtjson
from xigt.errors import XigtError

ID = 'C30'
LEVEL = 'exploration'
RULE = ('(a) every value of a list that a codec may be unable to write, put into every '
        'writable field of every object of a corpus (thorough: also into every pair of a '
        'reduced list), dumped to a path, a path object, open text, binary and in-memory files, in '
        'every encoding (also unknown ones) and layout; (b) corpora read transiently, '
        'incrementally or fully from files damaged at every byte, dumped over that same file, '
        'and sorted in place; igt generators that fail at every position; (c) every size limit of '
        'the output file and every position at which the file object itself fails: the failure '
        'is reported; distinct = distinct (document, fault, target)')
ASSUMPTIONS = ['a write that fails for want of space may have destroyed the old contents '
               '(the codecs overwrite in place); it is only required to be reported']
OLD = b'<xigt-corpus id="old">\n  <igt id="kept"/>\n</xigt-corpus>\n' * 3
ENC = ['utf-8', 'us-ascii', 'utf-16', 'unicode', 'no-such-encoding']
MODS = {'xml': xigtxml, 'json': xigtjson}


def rich():
    return corpus(
        igt('i1',
            tier('t', item('a', 'x', attrs={'q': '1'}), item('b', 'y\u00e9'), type='words',
                 md=[metadata(meta(type='n', text='m'))]),
            tier('u', item('c', attrs={'alignment': 'a'}), attrs={'alignment': 't'}),
            md=[metadata(meta(mc('k', mc('l', text='z')), type='n'), type='xigt-meta')],
            type='y'),
        igt('i2', tier('t', item('a', '\u3042'))),
        id='c', nsmap={'a': docs.A}, attrs={'{%s}k' % docs.A: 'v'}, md=[metadata(meta(text='q'))])


class Odd(object):
    """Cannot be turned into text."""
    def __str__(self):
        raise RuntimeError('odd')
    __repr__ = __str__


class Fussy(str):
    """A string that fails when it is looked at."""
    def __getattribute__(self, n):
        raise RuntimeError('fussy ' + n)


VALUES = [('object', object), ('odd', Odd), ('bytes', lambda: b'x'), ('int', lambda: 5),
          ('float', lambda: 1.5), ('list', lambda: ['x']), ('dict', lambda: {'a': 'x'}),
          ('set', lambda: {1}), ('true', lambda: True), ('none', lambda: None),
          ('tuple', lambda: ('x',)), ('text', lambda: 'ok \u00e9'),
          ('nan', lambda: float('nan')), ('empty', lambda: ''),
          ('type', lambda: Odd), ('exc', lambda: ValueError('x')), ('complex', lambda: 1j)]
LOADABLE = ('text', 'empty', 'none')


def objects(x):
    """All objects of a corpus, in a fixed order."""
    yield x
    if hasattr(x, 'metadata'):
        for m in x.metadata:
            yield from objects(m)
    try:
        kids = list(x)
    except TypeError:
        kids = list(getattr(x, 'children', ()))
    for k in kids:
        yield from objects(k)


def setters(o):
    """(name, function(value)) for every field of an object."""
    def attr(n):
        return lambda v: setattr(o, n, v)
    yield 'type', attr('type')
    yield 'id', attr('id')
    for n in ('text', 'name', 'namespace'):
        if hasattr(o, n):
            yield n, attr(n)
    yield 'attribute', lambda v: o.attributes.__setitem__('q', v)
    yield 'alignment', lambda v: o.attributes.__setitem__('alignment', v)
    yield 'attribute name', lambda v: o.attributes.__setitem__(v, 'q')
    yield 'prefix', lambda v: setattr(o, 'nsmap', {v: 'urn:q'})
    yield 'uri', lambda v: setattr(o, 'nsmap', {'q': v})
    yield 'nsmap', attr('nsmap')
    if hasattr(o, 'children'):
        yield 'children', attr('children')
        yield 'child', lambda v: setattr(o, 'children', list(o.children) + [v])
    if hasattr(o, 'metadata'):
        yield 'metadata', lambda v: o.metadata.append(v)
    if hasattr(o, 'append'):
        yield 'member', lambda v: o.append(v)


def nfields():
    xc = build(rich())
    return sum(1 for o in objects(xc) for _ in setters(o))


def poison(xc, n, v):
    """Put v into the n-th field; its name or None if that is refused."""
    k = 0
    for o in list(objects(xc)):
        for name, fn in setters(o):
            if k == n:
                try:
                    fn(v)
                except Exception:
                    return None
                return '%s of %s' % (name, type(o).__name__)
            k += 1
    raise AssertionError(n)


def cases(tier_):
    n = nfields()
    for i in range(n):
        yield ['poison', i]
    if tier_ == 'thorough':
        for i in range(n):
            yield ['poison2', i]
    for mode in ('full', 'incremental', 'transient'):
        for k in range(4):
            yield ['damaged', 'xml', mode, k]
        yield ['damaged', 'json', mode, 0]
    yield ['generator']
    yield ['notcorpus']
    for k in range(4):
        yield ['limit', 'xml', k]
        yield ['limit', 'json', k]
    yield ['sortkey']


def run(case, ctx):
    globals()['run_' + case[0]](*case[1:], ctx=ctx)


# ------------------------------------------------------------------ targets

class Target:
    """A file with old contents, to be written in one of several ways."""
    KINDS = ['path', 'path object', 'binary file', 'text file', 'BytesIO', 'StringIO',
             'new path']

    def __init__(self, d):
        self.d = d
        self.p = os.path.join(d, 'f')
        self.fd = None

    def reset(self):
        with open(self.p, 'wb') as fh:
            fh.write(OLD)
        for n in os.listdir(self.d):
            if n != 'f':
                os.unlink(os.path.join(self.d, n))

    def dump(self, kind, mod, xc, **kw):
        """Exception or None; afterwards self.data holds what was written."""
        self.reset()
        p = self.p
        exc = fh = None
        try:
            if kind == 'path':
                mod.dump(p, xc, **kw)
            elif kind == 'path object':
                mod.dump(pathlib.Path(p), xc, **kw)
            elif kind == 'new path':
                mod.dump(p + '2', xc, **kw)
            else:
                fh = {'binary file': lambda: open(p, 'ab'),
                      'text file': lambda: open(p, 'a', encoding='utf-8'),
                      'BytesIO': io.BytesIO, 'StringIO': io.StringIO}[kind]()
                mod.dump(fh, xc, **kw)
        except Exception as e:
            exc = e
        if fh is not None and kind.endswith('IO'):
            self.data = fh.getvalue()
            if isinstance(self.data, str):
                self.data = self.data.encode('utf-8')
            old = b''
        else:
            if fh is not None:
                fh.close()
            q = p + '2' if kind == 'new path' else p
            self.data = open(q, 'rb').read() if os.path.exists(q) else None
            old = None if kind == 'new path' else OLD
            if kind == 'new path' and open(p, 'rb').read() != OLD:
                raise Violation('dumping to another path changed a file beside it')
            if kind in ('binary file', 'text file') and exc is None:
                if not self.data.startswith(OLD):
                    raise Violation('dumping to a file opened for appending replaced what was '
                                    'in it')
                self.data = self.data[len(OLD):]
        left = [n for n in os.listdir(self.d) if n not in ('f', 'f2')]
        if left:
            raise Violation('dumping left %r beside the file' % left)
        if exc is not None and self.data != old:
            raise Violation(
                '%s.dump(%s, %r) failed (%s: %s) and changed the old contents: %r -> %r'
                % (mod.__name__, kind, kw, type(exc).__name__, safe(exc), old,
                   self.data and self.data[:300]))
        return exc


def safe(e):
    try:
        return str(e)
    except Exception:
        return '?'


def both(xc, what, loadable, t, ctx, key, kinds=Target.KINDS, ref=None):
    for name, mod in MODS.items():
        first = {}
        for enc in ENC if name == 'xml' else ['utf-8']:
            for ind in (2, None):
                for kind in kinds:
                    exc = t.dump(kind, mod, xc, encoding=enc, indent=ind)
                    ctx.ev((key, name, enc, ind, kind))
                    ctx.out('%s: %s' % (name, 'refused' if exc else 'written'))
                    if exc:
                        continue
                    if enc == 'no-such-encoding':
                        raise Violation('%s in an unknown encoding was accepted' % kind)
                    c = (enc, ind, kind == 'text file' or kind == 'StringIO')
                    # complete: every target gets the same document
                    if first.setdefault(c, t.data) != t.data:
                        raise Violation('%s: %s.dump wrote different documents to different '
                                        'targets: %r / %r' % (what, mod.__name__,
                                                              first[c][-200:], t.data[-200:]))
                    if loadable and ref is not None:
                        got = mod.loads(t.data)
                        r = diff(ref, snap(got))
                        if r:
                            raise Violation('%s: %s.dump(%s, %r, %r) lost data: %s'
                                            % (what, mod.__name__, kind, enc, ind, r))


def run_poison(n, ctx):
    t = Target(ctx.tmp())
    for vname, mk in VALUES:
        xc = build(rich())
        what = poison(xc, n, mk())
        if what is None:
            ctx.out('not accepted')
            continue
        quick = not ctx.thorough
        both(xc, '%s in %s' % (vname, what), False, t, ctx, (n, vname),
             kinds=Target.KINDS if not quick or n % 3 == 0 else
             [Target.KINDS[n % 7], Target.KINDS[(n + 3) % 7]])
        if vname == 'object':
            ctx.sample('%s in %s' % (vname, what))


def run_poison2(n, ctx):
    t = Target(ctx.tmp())
    m = nfields()
    for j in range(m):
        for a in ('object', 'text', 'int'):
            xc = build(rich())
            if poison(xc, n, dict(VALUES)[a]()) is None:
                continue
            if n == j:
                continue
            if poison(xc, j, object()) is None:
                continue
            both(xc, '%s in %d, object in %d' % (a, n, j), False, t, ctx, (n, a, j),
                 kinds=['path', 'text file'])


# ------------------------------------------------------------ damaged inputs

def sources(name, k):
    xc = build(rich())
    if name == 'json':
        return xigtjson.dumps(xc, indent=None).encode()
    return xigtxml.dumps(xc, encoding='utf-16' if k == 3 else 'utf-8',
                         indent=2 if k % 2 else None)


def run_damaged(name, mode, k, ctx):
    mod = MODS[name]
    raw = sources(name, k)
    d = ctx.tmp()
    p = os.path.join(d, 'f')
    want = snap(mod.loads(raw))

    def damaged():
        for n in range(len(raw)):
            if k < 2 or k == 3:
                yield ('cut at %d' % n), raw[:n]
            if k == 2 or k == 0 and ctx.thorough:
                for c in (b'<', b'&', b'\x00', b'\xff'):
                    yield ('%r at %d' % (c, n)), raw[:n] + c + raw[n + 1:]

    def check(what, data, fn):
        with open(p, 'wb') as fh:
            fh.write(data)
        try:
            fn()
        except Exception as e:
            got = open(p, 'rb').read()
            if got != data:
                raise Violation('%s %s, a document damaged (%s), loaded %s: %s failed and '
                                'changed the file to %r' % (name, what, what, mode,
                                                            type(e).__name__, got[:300]))
            ctx.out('refused')
            r = False
        else:
            ctx.out('accepted')
            r = True
        if os.listdir(d) != ['f']:
            raise Violation('files left behind: %r' % os.listdir(d))
        ctx.ev((name, mode, k, what, fn.__name__))
        return r

    def resave():
        mod.dump(p, mod.load(p, mode=mode))

    def resave_fh():
        with open(p, 'rb') as fh:
            mod.dump(p, mod.load(fh, mode=mode))

    from xigt.scripts import xigt_sort

    def sort():
        r = cli.run(xigt_sort.main, ['--in-place', '--igt-key', '@id', p])
        if r.code:
            raise r.exc or RuntimeError('exit')

    fns = [resave, resave_fh] + ([sort] if name == 'xml' and mode == 'full' else [])
    for what, data in damaged():
        for fn in fns:
            ok = check(what, data, fn)
            if ok and what.startswith('cut') and len(data) < len(raw.rstrip(b'\n\0 ')):
                raise Violation('%s %s: a document %s was taken for a complete one and '
                                'replaced' % (name, mode, what))
    for fn in fns:
        if not check('whole', raw, fn):
            raise Violation('%s %s: saving a good document over itself failed' % (name, mode))
        r = diff(want, snap(mod.load(p)))
        if r:
            raise Violation('%s, loaded %s and saved over itself: %s' % (name, mode, r))


def run_generator(ctx):
    """Corpora whose igts come from a generator that fails after n igts."""
    t = Target(ctx.tmp())
    from xigt import XigtCorpus, Igt
    for mode in ('transient', 'incremental', 'full'):
        for n in range(6):
            for exc in (ValueError, KeyError, OSError, XigtError, UnicodeError, MemoryError):
                for total in range(n, 6):
                    def gen():
                        for i in range(total):
                            if i == n:
                                raise exc('stop')
                            yield Igt(id='i%d' % i)
                        if n == total and exc is not ValueError:
                            raise exc('at the end')
                    for name, mod in MODS.items():
                        for kind in Target.KINDS:
                            try:
                                xc = XigtCorpus(igts=gen(), mode=mode)
                            except exc:
                                ctx.out('refused when built')
                                continue
                            enc = 'unicode' if kind == 'StringIO' else 'utf-8'
                            e = t.dump(kind, mod, xc, encoding=enc)
                            fails = n < total or exc is not ValueError
                            if name == 'json' and kind in ('BytesIO', 'binary file'):
                                fails = bool(e)   # text is written: usually refused
                            if bool(e) != fails:
                                raise Violation('%s generator failing with %s after %d of %d '
                                                'igts: dump %s' % (mode, exc.__name__, n, total,
                                                                   'raised %r' % e if e else
                                                                   'raised nothing'))
                            if not e:
                                got = mod.loads(t.data)
                                if [g.id for g in got] != ['i%d' % i for i in range(n)]:
                                    raise Violation('%d igts written of %d' % (len(got), n))
                            ctx.ev((mode, n, exc.__name__, total, name, kind))


def run_notcorpus(ctx):
    """Anything but a corpus is refused."""
    t = Target(ctx.tmp())
    xc = build(rich())
    bad = [None, 'x', 5, object(), [], {}, list(xc), xc[0], xc[0][0], xc[0][0][0],
           xc.metadata[0], xc.metadata[0][0], iter(xc), xigtxml, type(xc)]
    for i, b in enumerate(bad):
        for name, mod in MODS.items():
            for kind in Target.KINDS:
                for enc in ENC:
                    if t.dump(kind, mod, b, encoding=enc) is None:
                        raise Violation('%s.dump of %s wrote %r'
                                        % (mod.__name__, type(b).__name__, t.data))
                    ctx.ev((i, name, kind, enc))


def run_sortkey(ctx):
    """Sorting in place by keys that cannot be evaluated."""
    from xigt.scripts import xigt_sort
    raw = sources('xml', 1)
    p = os.path.join(ctx.tmp(), 'f')
    keys = ['', '/', '//', '@', '(', ')', '[', 'tier[', 'tier/', 'tier/@', '@id[', 'q:x', '@q:x',
            'value(', 'value()', 'text(', 'nosuch()', 'tier', 'tier/item', '.', '..', '../..',
            '*', '|', '@id|', "tier[@id=']", '@id', 'tier/@id', 'metadata//', '\u3042', '1']
    for opt in ('--igt-key', '--tier-key', '--item-key', '--tier-deps'):
        for key in keys:
            for key2 in (None, '@id', 'tier['):
                with open(p, 'wb') as fh:
                    fh.write(raw)
                a = ['--in-place', opt + '=' + key]
                if key2 is not None:
                    a.append('--item-key=' + key2)
                r = cli.run(xigt_sort.main, a + [p])
                got = open(p, 'rb').read()
                if r.code:
                    if got != raw:
                        raise Violation('sort %r failed and changed the file' % a)
                else:
                    w, g = snap(xigtxml.loads(raw)), snap(xigtxml.loads(got))
                    if canon(w) != canon(g):
                        raise Violation('sort %r lost data: %s' % (a, diff(w, g)))
                ctx.out('failed' if r.code else 'sorted')
                ctx.ev((opt, key, key2))


def canon(s):
    s = dict(s)
    if 'kids' in s:
        ks = [canon(k) for k in s['kids']]
        s['kids'] = sorted(ks, key=repr) if s['k'] in ('corpus', 'igt', 'tier') else ks
    return s


# ------------------------------------------------------------ write failures

class Failing(io.RawIOBase):
    """A file object that fails after n bytes or characters."""
    def __init__(self, n, exc):
        self.n, self.exc, self.got = n, exc, 0

    def writable(self):
        return True

    def write(self, b):
        self.got += len(b)
        if self.got > self.n:
            raise self.exc
        return len(b)


def run_limit(name, k, ctx):
    mod = MODS[name]
    s = [rich(), corpus(), rich(),
         corpus(*[igt('g%d' % i, tier('t', item('a', 'x' * 30))) for i in range(150)])][k]
    kw = {'encoding': 'utf-16' if k == 2 else 'utf-8', 'indent': None if k == 2 else 2}
    xc = build(s)
    d = ctx.tmp()
    p = os.path.join(d, 'f')
    mod.dump(p, xc, **kw)
    full = open(p, 'rb').read()
    step = 1 if k < 3 else 97
    old = signal.signal(signal.SIGXFSZ, signal.SIG_IGN)
    soft, hard = resource.getrlimit(resource.RLIMIT_FSIZE)
    try:
        for n in range(0, len(full) + 3, step):
            for what in ('path', 'path object', 'binary file', 'text file'):
                if name == 'json' and what == 'binary file':
                    continue
                os.unlink(p)
                err = None
                resource.setrlimit(resource.RLIMIT_FSIZE, (n, hard))
                try:
                    try:
                        if what == 'path':
                            mod.dump(p, xc, **kw)
                        elif what == 'path object':
                            mod.dump(pathlib.Path(p), xc, **kw)
                        else:
                            with (open(p, 'wb') if what == 'binary file'
                                  else open(p, 'w')) as fh:
                                mod.dump(fh, xc, **kw)
                    except OSError as e:
                        err = e
                finally:
                    resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
                got = open(p, 'rb').read()
                if (err is None) != (n >= len(full)):
                    raise Violation('%s.dump(%s) where only %d of %d bytes can be written: %s, '
                                    '%d bytes there' % (mod.__name__, what, n, len(full),
                                                        err and repr(err) or 'no error',
                                                        len(got)))
                if err is None and got != full:
                    raise Violation('%s.dump(%s) reported success with %d of %d bytes'
                                    % (mod.__name__, what, len(got), len(full)))
                if err is not None and err.errno != errno.EFBIG:
                    raise Violation('another error than the one met: %r' % err)
                ctx.ev((name, k, n, what))
    finally:
        resource.setrlimit(resource.RLIMIT_FSIZE, (soft, hard))
        signal.signal(signal.SIGXFSZ, old)
    size = len(full) if name == 'xml' else len(full.decode())
    for n in range(0, size, step):
        for exc in (OSError(errno.ENOSPC, 'full'), ValueError('closed'), KeyError('x')):
            f = Failing(n, exc)
            if name == 'json':
                class T(object):
                    write = staticmethod(f.write)
                f2 = T()
            else:
                f2 = f
            try:
                mod.dump(f2, xc, **kw)
            except Exception as e:
                if e is not exc:
                    raise Violation('the error of the file object became %r' % e)
            else:
                raise Violation('%s.dump ignored that the file object failed with %r after '
                                '%d of %d' % (mod.__name__, exc, n, size))
            ctx.ev((name, k, n, type(exc).__name__))
    for q in (os.path.join(d, 'nodir', 'f'), d, '/dev/full'):
        try:
            mod.dump(q, xc, **kw)
        except OSError:
            ctx.ev((name, k, q[-4:]))
        else:
            raise Violation('%s.dump(%r) reported success' % (mod.__name__, q))
