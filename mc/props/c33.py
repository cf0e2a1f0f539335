"""C33: results depend on the input only."""
import json
import os
import shutil
import subprocess
import sys
import xigt
from mc.core import Violation

ID = 'C33'
LEVEL = 'model_checking'
IMPORTS = ('xigt', 'xigt.main')
RULE = ('nine workloads (both codecs in all modes, references and queries, and all commands) run '
        'in separate processes in every combination of locale (UTF-8, ASCII, and text files '
        'opened in Latin-1 or Windows-1252) x Python options (none, -O, -OO, -X dev, -bb, '
        '-X utf8) x order of the workloads (forward, reverse, twice, each alone) x iteration '
        'order of sets (own, sorted, reversed, rotated) x order of directory listings x way of '
        'naming paths, and under 12 (thorough 64) hash seeds; every result, output, error and '
        'written file compared byte by byte with those of the first environment; and all '
        'histories of two (thorough also three) calls from a catalogue of some 280 calls of all '
        'modules (same and other arguments, shared configurations) in a process, each result '
        'compared with that of the call alone; distinct = distinct environments and histories')
ASSUMPTIONS = ['what is printed to the terminal is ASCII (its encoding is the choice of the user)',
               'sets are made through the names set and frozenset or hash seeds reach their '
               'orders']
CASE_CPU = 600
CASE_CPU_THOROUGH = 1200
WORKER = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'envwork.py')

UTF8 = {'LC_ALL': 'C.UTF-8'}
ASCII = {'LC_ALL': 'C', 'PYTHONCOERCECLOCALE': '0', 'PYTHONUTF8': '0'}
LOCALES = {'utf8': (UTF8, ''), 'ascii': (ASCII, ''), 'latin-1': (UTF8, 'enc=latin-1'),
           'cp1252': (UTF8, 'enc=cp1252'), 'emulated-ascii': (UTF8, 'enc=ascii')}
FLAGS = {'none': [], 'O': ['-O'], 'OO': ['-OO'], 'dev': ['-X', 'dev'], 'bb': ['-bb'],
         'utf8': ['-X', 'utf8']}
WORKS = ['w_xml', 'w_json', 'w_refs', 'w_query', 'w_partition', 'w_sort', 'w_validate',
         'w_export', 'w_import']


def cases(tier):
    big = tier == 'thorough'
    for loc in LOCALES:
        for fl in FLAGS:
            for pol in ('', 'set=sorted', 'set=reversed', 'set=rotated'):
                if not big and pol in ('set=rotated', 'set=sorted') and (loc, fl) != ('utf8', 'none'):
                    continue
                yield ['env', loc, fl, pol]
    for w in WORKS:
        yield ['alone', w]
    for s in range(1, 65 if big else 13):
        yield ['seed', s]
    for b in range(NB):
        yield ['pairs', b]
    if big:
        for b in range(4 * NB):
            yield ['triples', b]


def execute(ctx, loc, fl, pol, order='forward', files='', paths='abs', seed=0, cwd=None):
    env, enc = LOCALES[loc]
    top = ctx.tmp()
    e = {k: v for k, v in os.environ.items()
         if not k.startswith(('LC_', 'LANG', 'PYTHON', 'LOGON'))}
    e.update(env, PYTHONHASHSEED=str(seed), PYTHONDONTWRITEBYTECODE='1')
    p = subprocess.run(
        [sys.executable, '-B'] + FLAGS[fl] + [
            WORKER, os.path.dirname(os.path.dirname(os.path.abspath(xigt.__file__))), top, order,
            ','.join(x for x in (enc, pol, files) if x), paths],
        env=e, cwd=cwd or (top if paths == 'rel' else '/'), capture_output=True, timeout=300)
    shutil.rmtree(top)
    if p.returncode:
        err = p.stderr.decode(errors='replace')
        raise Violation('the workloads end with status %d in %r: %s' % (
            p.returncode, (loc, fl, pol, order, files, paths, seed), err[-1500:]))
    ctx.ev((loc, fl, pol, order, files, paths, seed))
    return json.loads(p.stdout.decode('ascii'))


BASE = []
NB = 16


def compare(ctx, *env, **kw):
    if not BASE:
        BASE.append(execute(ctx, 'utf8', 'none', ''))
    want, got = BASE[0], execute(ctx, *env, **kw)
    what = ' '.join(str(x) for x in env) + ' ' + ' '.join('%s=%s' % x for x in sorted(kw.items()))
    for w in got:
        for k, (a, b) in enumerate(zip(want[w], got[w])):
            ctx.transitions += 1
            if a != b:
                raise Violation('%s in %s: %s differs\n%s' % (w, what, a[0], first(a[1], b[1])))
        if len(want[w]) != len(got[w]):
            raise Violation('%s in %s: %d results, not %d' % (w, what, len(got[w]), len(want[w])))
    ctx.out('same')


def first(a, b, at=''):
    """The first place where two structures differ."""
    if type(a) is type(b) and isinstance(a, list) and len(a) == len(b):
        for k, (x, y) in enumerate(zip(a, b)):
            if x != y:
                return first(x, y, '%s/%d' % (at, k))
    if isinstance(a, str) and isinstance(b, str) and len(a) > 200:
        k = next((i for i, (x, y) in enumerate(zip(a, b)) if x != y), min(len(a), len(b)))
        return '%s, from position %d: %r, here %r' % (at, k, a[k:k + 120], b[k:k + 120])
    return '%s: %r, here %r' % (at, str(a)[:600], str(b)[:600])


def histories(case, ctx):
    from mc import histwork
    kind, b = case
    d = ctx.tmp()
    w = histwork.Work(d)
    n = len(w.calls)
    want = []
    for k in range(n):
        w.restart()
        want.append(w.call(k))

    def check(seq):
        w.restart()
        for i, k in enumerate(seq):
            got = w.call(k)
            ctx.transitions += 1
            if got != want[k]:
                raise Violation('%s after %s: %s' % (
                    w.calls[k][0], ' and '.join(w.calls[x][0] for x in seq[:i]) or 'nothing',
                    first(want[k], got)))
        ctx.ev((kind,) + tuple(seq))
    if kind == 'pairs':
        for i in range(b, n, NB):
            for j in range(n):
                check((i, j, i))
        ctx.states = n
        ctx.out('pairs')
    else:
        ks = range(0, n, 4)
        for i in list(ks)[b::4 * NB]:
            for j in ks:
                for k in range(n):
                    check((i, j, k))
        ctx.out('triples')
    shutil.rmtree(d)


def run(case, ctx):
    if case[0] in ('pairs', 'triples'):
        return histories(case, ctx)
    if case[0] == 'alone':
        for pol in ('', 'set=reversed'):
            compare(ctx, 'utf8', 'none', pol, order='alone:' + case[1])
    elif case[0] == 'seed':
        for paths in ('abs', 'rel'):
            compare(ctx, 'utf8', 'none', '', seed=case[1], paths=paths)
    else:
        _, loc, fl, pol = case
        full = ctx.thorough or pol and fl == 'none' or loc in ('utf8', 'ascii') and not pol
        for n, (order, files, paths) in enumerate(
                (o, f, p) for o in ('forward', 'reverse', 'twice') for f in ('', 'files=reversed')
                for p in ('abs', 'rel')):
            if full or n in (0, 5, 11):
                compare(ctx, loc, fl, pol, order=order, files=files, paths=paths)
    ctx.sample(case)
