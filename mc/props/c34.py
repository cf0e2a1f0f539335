"""C34: whatever fails, it is reported, files are closed and others untouched."""
import errno
import json
import os
import pathlib
import shutil
from mc import stubs
stubs.install()
from mc import cli, faults, xmlref
from mc.core import Violation
from mc.dom import (build, snap, diff, corpus, igt, tier, item, metadata, meta, mc, full_igt)
from xigt import main as xigt_main
from xigt.codecs import xigtxml, xigtjson
from xigt.exporters import latex
from xigt.importers import odin, toolbox
from xigt.scripts import (xigt_export, xigt_import, xigt_partition, xigt_query, xigt_sort,
                          xigt_validate)

ID = 'C34'
LEVEL = 'model_checking'
IMPORTS = ('xigt', 'xigt.scripts.xigt_import', 'xigt.scripts.xigt_export')
RULE = ('every operation that uses files (loading in three modes and dumping in both codecs, by '
        'path and path object; all commands with one and two inputs, configurations and existing '
        'or new outputs) x every event of its run (opening, reading, writing, closing a file, '
        'making a directory; buffers of normal and of 64-byte size) x the errors raised there '
        '(no space, I/O error, interruption); afterwards: the error is reported or the result '
        'is complete, all files opened are closed, only the outputs differ and an output only if '
        'all input was read, and the same operation succeeds when repeated; distinct = distinct '
        '(operation, event, error)')
ASSUMPTIONS = ['an output that cannot be written to the end may be incomplete',
               'the libraries toolbox, odintxt and delphin are replaced by stand-ins']
CASE_CPU = 600

ERRORS = {'space': lambda: OSError(errno.ENOSPC, 'No space left on device'),
          'io': lambda: OSError(errno.EIO, 'Input/output error'),
          'perm': lambda: PermissionError(errno.EACCES, 'Permission denied'),
          'stop': KeyboardInterrupt, 'memory': MemoryError}


def rich(n):
    md = [metadata(meta(mc('l', text='\u00e9', attrs={'k': 'v'}), id='m1'))]
    return corpus(full_igt('%sg1' % n), dict(full_igt('%sg2' % n), attrs={'k': 'b'}, md=md),
                  igt('%sg3' % n, tier('p', item('p1', 'x' * 200), type='phrases'),
                      tier('q', item('q1', 'y', attrs={'alignment': 'p1'}), type='glosses',
                           attrs={'alignment': 'p'}), attrs={'k': 'a'}))


TOOLBOX = '\\_sh v3.0  400  Text\n' + ''.join(
    '\\ref %s\n\\t ab  cd\n\\m a -b  cd\n\\g X -Y  Z\n\\f free\n\n' % r for r in 'xyz')
ODIN = ('doc_id: %s\nigt_id: igt1-1\nline_range: 1 2\nline_types: L G\nlanguage: E (xyz)\n'
        'iso-639-3: xyz\nline=1 tag=L:a b\nline=2 tag=G:c d\n\n')
OLD = b'<xigt-corpus id="old"><igt id="kept"/></xigt-corpus>\n' * 2


def setup(d):
    """The files every operation may use."""
    files = {'a.xml': xmlref.write(rich('a')), 'b.xml': xmlref.write(rich('b')),
             'bad.xml': xmlref.write(rich('c'))[:-30],
             'a.json': xigtjson.dumps(build(rich('a'))), 'old': OLD, 'other': 'other',
             'in.txt': TOOLBOX, 'odin.txt': ODIN % 1 + ODIN % 2,
             'latex.json': json.dumps({'tier_types': ['phrases', 'glosses', 'words']}),
             'tbx.json': json.dumps({'record_markers': ['\\ref']}),
             'odin.json': json.dumps({'keep_headers': True}),
             'its.json': json.dumps({'relations': os.path.abspath(__file__)})}
    for n in ('in', 'full', 'empty'):
        os.mkdir(os.path.join(d, n))
    for n in 'xyz':
        files['in/%s.txt' % n] = ODIN % n
    files['full/y.xml'] = OLD
    for f, s in files.items():
        with open(os.path.join(d, f), 'wb') as fh:
            fh.write(s if isinstance(s, bytes) else s.encode('utf-8'))


def listing(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as fh:
                out[os.path.relpath(os.path.join(p, f), d)] = fh.read()
        for x in ds:
            out[os.path.relpath(os.path.join(p, x), d) + '/'] = None
    return out


def command(main, *args):
    def f(d):
        a = [x.replace('D/', d + '/') for x in args]
        r = cli.run(main, a, both=False)
        if isinstance(r.exc, Exception):
            raise r.exc
        return [r.code, r.out.replace(d, 'D')]
    return f


def load(codec, name, mode, how):
    def f(d):
        p = os.path.join(d, name)
        xc = codec.load(pathlib.Path(p) if how == 'pathlib' else p, mode=mode)
        return [snap(g) for g in xc] + [xc.id, repr(xc.metadata)[:5]]
    return f


def dump(codec, name, how, ind, enc='utf-8'):
    def f(d):
        p = os.path.join(d, name)
        codec.dump(pathlib.Path(p) if how == 'pathlib' else p, build(rich('d')), indent=ind,
                   encoding=enc)
    return f


def stream(codec, src, dst, mode):
    """From one file to another."""
    def f(d):
        codec.dump(os.path.join(d, dst), codec.load(os.path.join(d, src), mode=mode))
    return f


def api(fn, *args):
    def f(d):
        return fn(*[x.replace('D/', d + '/') if isinstance(x, str) else x for x in args])
    return f


# name -> (operation, files it may change)
OPS = {}
for _m in ('full', 'incremental', 'transient'):
    for _h in ('path', 'pathlib'):
        OPS['xml load %s %s' % (_m, _h)] = (load(xigtxml, 'a.xml', _m, _h), [])
        OPS['json load %s %s' % (_m, _h)] = (load(xigtjson, 'a.json', _m, _h), [])
    OPS['xml copy %s' % _m] = (stream(xigtxml, 'a.xml', 'old', _m), ['old'])
    OPS['xml copy new %s' % _m] = (stream(xigtxml, 'a.xml', 'new', _m), ['new'])
    OPS['xml rewrite %s' % _m] = (stream(xigtxml, 'a.xml', 'a.xml', _m), ['a.xml'])
    OPS['json rewrite %s' % _m] = (stream(xigtjson, 'a.json', 'a.json', _m), ['a.json'])
for _h in ('path', 'pathlib'):
    for _i in (None, 2):
        for _t in ('old', 'new'):
            OPS['xml dump %s %s %s' % (_h, _i, _t)] = (dump(xigtxml, _t, _h, _i), [_t])
            OPS['json dump %s %s %s' % (_h, _i, _t)] = (dump(xigtjson, _t, _h, _i), [_t])
OPS['xml dump utf-16'] = (dump(xigtxml, 'old', 'path', 2, 'utf-16'), ['old'])
OPS['xml dump unicode'] = (dump(xigtxml, 'old', 'path', 2, 'unicode'), ['old'])
OPS.update({
    'partition': (command(xigt_partition.main, '--key-path=@k', '--default-key=z', 'D/out',
                          'D/a.xml', 'D/b.xml'), ['out/', 'out/a.xml', 'out/b.xml', 'out/z.xml']),
    'partition again': (command(xigt_partition.main, '--key-path=@id', 'D/out', 'D/a.xml',
                                'D/a.xml'), ['out/'] + ['out/ag%d.xml' % i for i in (1, 2, 3)]),
    'sort': (command(xigt_sort.main, '--igt-key=@k', 'D/a.xml'), []),
    'sort in place': (command(xigt_sort.main, '--igt-key=@k', '--tier-deps=alignment',
                              '--in-place', 'D/a.xml'), ['a.xml']),
    'query': (command(xigt_query.main, '-f', '//item/@id', '-c', '//tier', 'D/a.xml',
                      'D/b.xml'), []),
    'query tally': (command(xigt_query.main, '-t', '//item', '@alignment', 'D/b.xml'), []),
    'validate': (command(xigt_validate.main, '-v', 'D/a.xml', 'D/b.xml'), []),
    'validate vv': (command(xigt_validate.main, '-vv', 'D/b.xml', 'D/a.xml', 'D/b.xml'), []),
    'latex': (command(xigt_export.main, '-i', 'D/a.xml', '-o', 'D/old'), ['old']),
    'latex new': (command(xigt_export.main, '-i', 'D/a.xml', '-o', 'D/new', '-c',
                          'D/latex.json'), ['new']),
    'itsdb': (command(xigt_export.main, '-i', 'D/a.xml', '-o', 'D/new', '-f', 'itsdb', '-c',
                      'D/its.json'), []),
    'toolbox': (command(xigt_import.main, '-i', 'D/in.txt', '-o', 'D/old'), ['old']),
    'toolbox new': (command(xigt_import.main, '-i', 'D/in.txt', '-o', 'D/new', '-c',
                            'D/tbx.json'), ['new']),
    'odin': (command(xigt_import.main, '-f', 'odin', '-i', 'D/odin.txt', '-o', 'D/old'), ['old']),
    'odin new': (command(xigt_import.main, '-f', 'odin', '-i', 'D/odin.txt', '-o', 'D/new',
                         '-c', 'D/odin.json'), ['new']),
    'odin dir': (command(xigt_import.main, '-f', 'odin', '-i', 'D/in', '-o', 'D/new'),
                 ['new/', 'new/x.xml', 'new/y.xml', 'new/z.xml']),
    'odin dir full': (command(xigt_import.main, '-f', 'odin', '-i', 'D/in', '-o', 'D/full'),
                      ['full/x.xml', 'full/y.xml', 'full/z.xml']),
    'odin dir empty': (command(xigt_import.main, '-f', 'odin', '-i', 'D/empty', '-o', 'D/new'),
                       ['new/']),
    'toolbox function': (api(toolbox.xigt_import, 'D/in.txt', 'D/old'), ['old']),
    'odin function': (api(odin.xigt_import, 'D/odin.txt', 'D/old'), ['old']),
    'main sort': (command(lambda a: xigt_main.main(), 'sort', '--igt-key=@k', '--in-place',
                          'D/b.xml'), ['b.xml']),
    'main export': (command(lambda a: xigt_main.main(), 'export', '-i', 'D/b.xml', '-o',
                            'D/old'), ['old'])})
# these fail by themselves
FAILING = {
    'xml load bad': (load(xigtxml, 'bad.xml', 'full', 'path'), []),
    'xml load bad transient': (load(xigtxml, 'bad.xml', 'transient', 'path'), []),
    'xml load gone': (load(xigtxml, 'gone', 'full', 'path'), []),
    'json load bad': (load(xigtjson, 'a.xml', 'full', 'path'), []),
    'copy bad': (stream(xigtxml, 'bad.xml', 'old', 'transient'), ['-']),
    'rewrite bad': (stream(xigtxml, 'bad.xml', 'bad.xml', 'incremental'), ['-']),
    'sort bad': (command(xigt_sort.main, '--igt-key=@k', '--in-place', 'D/bad.xml'), ['-']),
    'query bad': (command(xigt_query.main, '-c', '//tier', 'D/bad.xml', 'D/b.xml'), []),
    'latex bad': (command(xigt_export.main, '-i', 'D/bad.xml', '-o', 'D/old'), ['-']),
    'itsdb bad': (command(xigt_export.main, '-f', 'itsdb', '-i', 'D/bad.xml', '-o', 'D/old',
                          '-c', 'D/its.json'), ['-']),
    'bad config': (command(xigt_export.main, '-i', 'D/a.xml', '-o', 'D/old', '-c', 'D/other'),
                   ['-']),
    'bad import config': (command(xigt_import.main, '-i', 'D/in.txt', '-o', 'D/old', '-c',
                                  'D/other'), ['-']),
    'odin bad': (command(xigt_import.main, '-f', 'odin', '-i', 'D/a.xml', '-o', 'D/old'), ['-']),
    'odin in gone': (command(xigt_import.main, '-f', 'odin', '-i', 'D/empty', '-o',
                             'D/gone/out'), ['-']),
    'odin in gone full': (command(xigt_import.main, '-f', 'odin', '-i', 'D/in', '-o',
                                  'D/gone/out'), ['-']),
    'odin in file': (command(xigt_import.main, '-f', 'odin', '-i', 'D/empty', '-o',
                             'D/old/out'), ['-']),
    'odin file to dir': (command(xigt_import.main, '-f', 'odin', '-i', 'D/odin.txt', '-o',
                                 'D/full'), ['-']),
    'odin dir to file': (command(xigt_import.main, '-f', 'odin', '-i', 'D/in', '-o', 'D/old'),
                         ['-']),
    'odin from nothing': (command(xigt_import.main, '-f', 'odin', '-i', 'D/gone', '-o',
                                  'D/new'), ['-']),
    'toolbox from nothing': (command(xigt_import.main, '-i', 'D/gone', '-o', 'D/old'), ['-']),
    'toolbox to gone': (command(xigt_import.main, '-i', 'D/in.txt', '-o', 'D/gone/out'), ['-']),
    'latex to gone': (command(xigt_export.main, '-i', 'D/a.xml', '-o', 'D/gone/out'), ['-']),
    'sort nothing': (command(xigt_sort.main, '--igt-key=@k', '--in-place', 'D/gone'), ['-']),
    'query nothing': (command(xigt_query.main, '-c', '//tier', 'D/gone'), ['-']),
    'validate nothing': (command(xigt_validate.main, 'D/gone'), ['-']),
    'partition in gone': (command(xigt_partition.main, '--key-path=@k', 'D/gone/out',
                                  'D/a.xml'), ['-']),
    'partition in full': (command(xigt_partition.main, '--key-path=@k', 'D/full', 'D/a.xml'),
                          ['-']),
    'partition in file': (command(xigt_partition.main, '--key-path=@k', 'D/old', 'D/a.xml'),
                          ['-']),
    'partition nothing': (command(xigt_partition.main, '--key-path=@k', 'D/out', 'D/gone'),
                          ['out/']),
    'partition bad': (command(xigt_partition.main, '--key-path=@k', 'D/out', 'D/a.xml',
                              'D/bad.xml'), ['out/']),
}


def cases(tier):
    for n in OPS:
        yield ['op', n]
    for n in FAILING:
        yield ['fails', n]
    yield ['own']
    yield ['validate']


def attempt(op, d, w):
    with w:
        try:
            return 'done', op(d)
        except BaseException as e:
            if isinstance(e, (SystemExit, AssertionError)) or type(e).__name__ == 'Hang':
                raise
            return 'raised', e


def scratch(ctx):
    d = ctx.tmp()
    setup(d)
    return d


def do_op(ctx, name):
    op, may = OPS[name]
    d = scratch(ctx)
    ref = attempt(op, d, faults.World())
    before_all = None
    if ref[0] != 'done' or ref[1] and isinstance(ref[1], list) and ref[1][0] not in (0, 1) and \
            isinstance(ref[1][0], int):
        raise Violation('%s fails: %r' % (name, ref[1]))
    after = listing(d)
    shutil.rmtree(d)
    d0 = scratch(ctx)
    before_all = listing(d0)
    shutil.rmtree(d0)
    changed = [f for f in set(after) | set(before_all) if after.get(f, 0) != before_all.get(f, 0)]
    for f in changed:
        if f not in may:
            raise Violation('%s changes %s' % (name, f))
    for small in (None, 64):
        log = None
        n = 0
        while True:
            errors = list(ERRORS) if ctx.thorough or n < 12 or n % 7 == 0 else ['io', 'stop']
            for e in errors:
                d = scratch(ctx)
                before = listing(d)
                w = faults.World(n, ERRORS[e], small)
                how, got = attempt(op, d, w)
                hit = len(w.log) > n
                what = '%s, %s at event %d %s' % (name, e, n, w.log[n] if hit else '')
                what = what.replace(d, 'D')
                if not hit:
                    log = w.log
                    if how != 'done' or plain(got) != plain(ref[1]):
                        raise Violation('%s with small buffers: %r' % (name, got))
                left = w.left_open()
                if left:
                    raise Violation('%s: %s stays open' % (what, left[0].replace(d, 'D')))
                now = listing(d)
                if hit:
                    judge(ctx, what, how, got, ref[1], w.log, n, d, before, now, after, may)
                    ctx.out('%s: %s' % (w.log[n][0], 'reported' if how == 'raised' else 'done'))
                    # and again, without any fault
                    if may:
                        shutil.rmtree(d)
                        os.mkdir(d)
                        setup(d)
                    how, got = attempt(op, d, faults.World())
                    if how != 'done' or plain(got) != plain(ref[1]) or \
                            listing(d) != after:
                        raise Violation('%s: repeated without the fault: %r' % (what, got))
                shutil.rmtree(d)
                ctx.ev((name, small, n, e))
                ctx.transitions += 1
                if not hit:
                    break
            if log is not None:
                break
            n += 1
        ctx.states += n
    ctx.sample([name, ['%s %s' % (k, os.path.basename(p)) for k, p in log[:40]]])


def plain(x):
    return repr(x)


def judge(ctx, what, how, got, ref, log, n, d, before, now, after, may):
    kind, path = log[n]
    same = now == after
    if how == 'done':
        code = got[0] if isinstance(got, list) and got and isinstance(got[0], int) else 0
        if plain(got) == plain(ref) and same:
            return  # it did not matter
        if not code:
            raise Violation('%s: not reported; result %s' % (what, show(got)))
    for f in set(before) | set(now):
        if before.get(f, 0) == now.get(f, 0):
            continue
        if f not in may:
            raise Violation('%s: %s is %s' % (what, f, 'left behind' if f not in before
                                              else 'changed'))
        if f in before:
            # an existing file may only change once it was opened for writing, and that
            # only after all input had been read
            if kind in ('read', 'open-r'):
                raise Violation('%s: the existing %s is changed' % (what, f)) if not any(
                    k == 'open-w' and os.path.relpath(p, d) == f and now.get(f) == after.get(f)
                    for k, p in log[:n]) else None
            elif not any(k == 'open-w' and os.path.relpath(p, d) == f for k, p in log[:n + 1]):
                raise Violation('%s: the existing %s is changed' % (what, f))
            elif kind == 'open-w' and os.path.relpath(path, d) == f:
                raise Violation('%s: %s is changed although it was not opened' % (what, f))
        elif kind in ('read', 'open-r') and not f.endswith('/') and now[f] != after.get(f):
            raise Violation('%s: an incomplete %s is made' % (what, f))


def show(x):
    return repr(x)[:300]


def do_fails(ctx, name):
    """Operations that fail because of their input, with other faults besides."""
    op, may = FAILING[name]
    n = None
    while True:
        for e in list(ERRORS)[1:4] if n is not None else ['io']:
            d = scratch(ctx)
            before = listing(d)
            w = faults.World(n, ERRORS[e], 64 if n is not None and n % 2 else None)
            how, got = attempt(op, d, w)
            what = '%s, %s' % (name, w.log[n] if n is not None and len(w.log) > n else 'no fault')
            what = what.replace(d, 'D')
            if how == 'done' and not (isinstance(got, list) and got and isinstance(
                    got[0], int) and got[0]):
                raise Violation('%s: not reported: %s' % (what, show(got)))
            if w.left_open():
                raise Violation('%s: %s stays open' % (what, w.left_open()[0].replace(d, 'D')))
            now = listing(d)
            for f in set(now) | set(before):
                if now.get(f, 0) != before.get(f, 0) and f not in may:
                    raise Violation('%s: %s is changed' % (what, f))
            shutil.rmtree(d)
            ctx.ev((name, n, e))
            ctx.out('input error reported')
            hit = n is None or len(w.log) > n
        if not hit:
            return
        n = 0 if n is None else n + 1


class Own:
    """A file object of the caller that fails at the n-th use."""
    def __init__(self, data=b'', n=None, text=False):
        self.data, self.n, self.text, self.pos = data, n, text, 0
        self.closed, self.uses, self.out = False, 0, []

    def use(self):
        self.uses += 1
        if self.uses - 1 == self.n:
            raise OSError(errno.EIO, 'Input/output error')

    def read(self, n=-1):
        self.use()
        b = self.data[self.pos:] if n is None or n < 0 else self.data[self.pos:self.pos + n]
        self.pos += len(b)
        return b

    def write(self, s):
        self.use()
        self.out.append(s)
        return len(s)

    def flush(self):
        self.use()

    def close(self):
        self.closed = True


def do_own(ctx):
    """Files given by the caller are used, not closed, and their errors reported."""
    docs = {'xml': (xigtxml, xmlref.write(rich('a')) * 1), 'json': (
        xigtjson, xigtjson.dumps(build(rich('a')), indent=None))}
    for name, (codec, s) in docs.items():
        for text in (False, True):
            data = s if text else s.encode('utf-8')
            for mode in ('full', 'incremental', 'transient'):
                want = [snap(g) for g in codec.loads(s)]
                for n in [None] + list(range(8)):
                    f = Own(data, n, text)
                    try:
                        got = [snap(g) for g in codec.load(f, mode=mode)]
                    except OSError as e:
                        got = e
                    what = '%s.load of a %s file in mode %s, error at use %r' % (
                        name, 'text' if text else 'binary', mode, n)
                    if f.closed:
                        raise Violation(what + ': the file of the caller is closed')
                    if n is not None and n < f.uses:
                        if not isinstance(got, OSError):
                            raise Violation(what + ': not reported')
                    elif got != want:
                        raise Violation(what + ': %r' % (got,))
                    ctx.ev((name, text, mode, n))
        for n in [None] + list(range(4)):
            f = Own(n=n)
            try:
                codec.dump(f, build(rich('a')))
                ok = True
            except OSError:
                ok = False
            if f.closed:
                raise Violation('%s.dump closes the file of the caller' % name)
            if ok != (n is None or n >= f.uses):
                raise Violation('%s.dump: an error at use %r is not reported' % (name, n))
            if ok and not f.out:
                raise Violation('%s.dump writes nothing' % name)
            ctx.ev((name, 'dump', n))
    # a file that is refused while it is read stays open, too
    for codec, bad in ((xigtxml, '<a/>'), (xigtxml, '<xigt-corpus>'), (xigtjson, '[}')):
        for mode in ('full', 'incremental', 'transient'):
            f = Own(bad.encode())
            try:
                list(codec.load(f, mode=mode))
                raise Violation('%r is accepted' % bad)
            except Violation:
                raise
            except Exception:
                pass
            if f.closed:
                raise Violation('load closes the file of the caller (%r)' % bad)
    ctx.out('own')


def do_validate(ctx):
    """Files that cannot be opened do not keep the validator from the others."""
    d = scratch(ctx)
    os.mkdir(os.path.join(d, 'dir.xml'))
    alone = command(xigt_validate.main, '-v', 'D/a.xml')(d)
    n = 0
    while True:
        w = faults.World(n, ERRORS['io'], 64)
        how, got = attempt(command(xigt_validate.main, '-v', 'D/b.xml', 'D/a.xml'), d, w)
        if len(w.log) <= n:
            break
        if 'b.xml' in w.log[n][1] and w.log[n][0] in ('open-r', 'read'):
            if how != 'done' or got[0] != 1 or 'D/b.xml' not in got[1] or not got[1].replace(
                    '1', '0').endswith(alone[1].replace('1', '0')):
                raise Violation('validate with a fault at %r: %r' % (w.log[n], got))
        ctx.ev(('validate', n))
        n += 1
    for bad in ('D/gone', 'D/dir.xml', 'D/gone/x', 'D/a.json', 'D/bad.xml'):
        for args in (['D/a.xml', bad, 'D/b.xml'], [bad, 'D/b.xml', bad], [bad]):
            how, got = attempt(command(xigt_validate.main, '-v', *args), d, faults.World())
            if how != 'done' or got[0] != 1:
                raise Violation('validate %r: %r' % (args, got))
            for k, a in enumerate(args):
                mark = 'Corpus %d (%s) failed to load' % (k, a)
                if (mark in got[1]) != (a == bad):
                    raise Violation('validate %r: %r' % (args, got))
            ctx.ev(('validate', repr(args)))
    ctx.out('validate')


def run(case, ctx):
    globals()['do_' + case[0]](ctx, *case[1:])
