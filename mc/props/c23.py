"""C23: partitioning distributes all igts by key and loses none."""
import itertools
import os
from mc import cli, docs, sizes, xmlref
from mc.core import Violation
from mc.dom import (corpus, igt, tier, item, metadata, meta, mc, norm, snap, diff, full_igt)
from xigt.codecs import xigtxml
from xigt.scripts import xigt_partition

ID = 'C23'
LEVEL = 'exploration'
IMPORTS = ('xigt', 'xigt.scripts.xigt_partition')
RULE = ('all assignments of 14 keys (missing, default, empty, colliding, with separators, '
        'dots, spaces, non-ASCII) to the igts of one file with up to 3 igts and of two files '
        'with up to 2 (thorough 3) igts; all assignments to three files with one igt; x key '
        'paths x default key; all combinations of prefix declarations of 2-3 input files; '
        'up to 257 different keys, igts of a key, characters in a key and files, with a change at '
        'every (boundary) position; two files of 20 (thorough 40) igts with all pairs of positions for one key; '
        'rich igts; existing and uncreatable output directories; files, their names, order '
        'and contents and the rest of the file system compared with a reference; distinct '
        '= distinct (files, options)')
ASSUMPTIONS = ['the key path gives strings; igts of one partition have different ids',
               'corpus-level metadata and attributes are not kept (as the code says)']
KEYS = [None, 'a', 'b', 'a:b', 'a-b', 'a/b', '../a', '/x', '---', '', '.', '..', '\u00e9', 'a b']
FEW = [None, 'a', 'a:b', 'a-b', '../a', '---', 'a/b']
PATHS = ['@k', 'tier/@type', 'metadata//dc:subject/@olac:code', 'tier/item/value()',
         'metadata/meta/text()', '@a:k']
DC, OLAC = 'http://purl.org/dc/elements/1.1/', 'http://www.language-archives.org/OLAC/1.1/'
NB = 16
NAMES = ['in1.xml', 'in3.xml', 'in0.xml', 'in2.xml']    # given in no order of names


def keyed(i, key, path):
    """An igt where path gives key."""
    v = lambda **kw: {k: x for k, x in kw.items() if x is not None}
    if path == '@k':
        return igt(i, attrs=v(k=key))
    if path == '@a:k':
        return igt(i, attrs={'{%s}k' % docs.A: key} if key is not None else {})
    if path == 'tier/@type':
        return igt(i, tier('t', **v(type=key)), tier('u', item('u1', 'q')))
    if path.startswith('metadata//'):
        return igt(i, md=[metadata(meta(mc('subject', ns=DC, text='x', attrs=(
            {'{%s}code' % OLAC: key} if key is not None else {}))))])
    if path == 'tier/item/value()':
        return igt(i, tier('p', *([item('p1', key)] if key else [])),
                   tier('w', *([item('w1', attrs={'segmentation': 'p1'})] if key else []),
                        attrs={'segmentation': 'p'}))
    return igt(i, md=[metadata(meta(**v(text=key)))])


NSMAP = {'dc': DC, 'olac': OLAC, 'a': docs.A}


def assignments(tier):
    for path in PATHS:
        big = path == '@k'
        for n in (0, 1, 2, 3):
            for ks in itertools.product(KEYS if n < 3 or tier == 'thorough' else FEW,
                                        repeat=n):
                yield path, [ks], '---'
        if not big and tier == 'quick':
            continue
        per = [ks for n in range((2 if tier == 'quick' else 3) + 1)
               for ks in itertools.product(FEW if n < 3 else FEW[:4], repeat=n)]
        for x, y in itertools.product(per, per):
            yield path, [x, y], '---'
        for ks in itertools.product(FEW, repeat=3):
            yield path, [[k] for k in ks], 'a-b'


def usable(path, ks):
    # keys that XML text cannot tell from nothing
    return path == '@k' or path == '@a:k' or '@' in path or all(k != '' for f in ks for k in f)


def cases(tier):
    for b in range(NB):
        yield ['assign', b]
    for b in range(NB):
        yield ['ns', b]
    for b in range(NB):
        yield ['many', b]
    for n in sizes.SIZES if tier == 'thorough' else LADDER:
        for part in range(sizes.parts(n)):
            yield ['size', n, part]
    yield ['rich']
    yield ['outdir']


def strip(x):
    """Without prefix declarations."""
    return {k: [strip(c) for c in v] if k in ('kids', 'md') else v
            for k, v in x.items() if k != 'nsmap'}


def maps(want, got, where):
    for k, v in want['nsmap'].items():
        if k and got['nsmap'].get(k) != v:
            raise Violation('%s: prefix %r is bound to %r, was %r'
                            % (where, k, got['nsmap'].get(k), v))
    for f in ('md', 'kids'):
        for a, b in zip(want.get(f, []), got.get(f, [])):
            maps(a, b, where)


def check(d, specs, keys, args, default, ctx, what):
    """specs: corpus spec per file; keys: key per igt per file."""
    top = os.path.join(d, 'x')
    os.mkdir(top)
    ins = []
    for n, s in enumerate(specs):
        p = os.path.join(d, NAMES[n])
        with open(p, 'wb') as fh:
            fh.write(s if isinstance(s, bytes) else xmlref.write(s).encode())
        ins.append(p)
    out = os.path.join(top, 'out')
    r = cli.run(xigt_partition.main, args + [out] + ins)
    if r.exc is not None or r.code:
        raise Violation('%r: %r' % (what, r))
    want = {}
    for s, ks in zip(specs, keys):
        for g, k in zip(s['kids'], ks):
            k = default if k is None else k
            want.setdefault(k.replace(':', '-').replace('/', '-') + '.xml', []).append(
                norm(g, s.get('nsmap')))
    tree = sorted(os.path.relpath(os.path.join(b, f), d)
                  for b, _, fs in os.walk(d) for f in fs)
    exp = sorted(NAMES[:len(ins)]
                 + [os.path.join('x', 'out', f) for f in want])
    if tree != exp:
        raise Violation('%r: files are %r, expected %r' % (what, tree, exp))
    for f, gs in want.items():
        with open(os.path.join(out, f), 'rb') as fh:
            raw = fh.read()
        xc = xigtxml.loads(raw)
        got = snap(xc)['kids']
        df = diff([strip(g) for g in gs], [strip(g) for g in got])
        if df:
            raise Violation('%r: %s: %s\n%s' % (what, f, df, raw.decode()[:1500]))
        for a, b in zip(gs, got):
            maps(a, b, '%r: %s' % (what, f))
    for p in ins:
        os.unlink(p)
    for f in want:
        os.unlink(os.path.join(out, f))
    os.rmdir(out)
    os.rmdir(top)
    ctx.ev(what)
    ctx.out('%d files' % len(want))


def nsfamilies():
    A, B = docs.A, docs.B
    maps_ = [None, {}, {'a': A}, {'a': B}, {'b': A}, {'a': A, 'b': B}, {'': A}, {'': B},
             {'': A, 'a': B}]

    def mk(i, m, inner):
        """A corpus with igt i using whatever its map binds."""
        eff = dict(m or {})
        ns = eff.get('')
        at = {'{%s}k' % u: p for p, u in eff.items() if p}
        at['k'] = '1'
        g = igt(i, tier('t', item('x', 'v', ns=ns, attrs=dict(at)), ns=ns, attrs=dict(at)),
                attrs=at, ns=ns, md=[metadata(meta(*[mc('e', ns=u, attrs={'{%s}z' % u: '1'}
                                                       if p else {})
                                                    for p, u in eff.items()], ns=ns), ns=ns)])
        if inner:
            return corpus(dict(g, nsmap=m), ns=None)
        return corpus(g, ns=ns, nsmap=m)
    for x in maps_:
        for y in maps_:
            for inner in itertools.product((False, True), repeat=2):
                if any(z and '' in z and i for z, i in zip((x, y), inner)):
                    continue
                yield [mk('g1', x, inner[0]), mk('g2', y, inner[1])]
            for z in maps_:
                yield [mk('g1', x, False), mk('g2', y, False), mk('g3', z, False)]


def run(case, ctx):
    d = ctx.tmp()
    if case[0] == 'assign':
        for n, (path, files, default) in enumerate(assignments(ctx.tier)):
            if n % NB != case[1] or not usable(path, files):
                continue
            c = iter(range(99))
            specs = [corpus(*[keyed('g%d' % next(c), k, path) for k in ks],
                            nsmap=dict(NSMAP)) for ks in files]
            args = ['--key-path=' + path]
            if default != '---':
                args.append('--default-key=' + default)
            check(d, specs, files, args, default, ctx, (path, files, default))
        ctx.sample([path, files])
    elif case[0] == 'ns':
        for n, specs in enumerate(nsfamilies()):
            if n % NB == case[1]:
                check(d, specs, [['1'] for s in specs], ['--key-path', '@k'], '---', ctx,
                      ('ns', specs))
                check(d, specs, [[None] for s in specs], ['--key-path', '@none', '-v'],
                      '---', ctx, ('ns', specs))
    elif case[0] == 'size':
        large(case[1], case[2], d, ctx)
    elif case[0] == 'many':
        many(case[1], d, ctx)
    elif case[0] == 'rich':
        gs = [full_igt('g%d' % i) for i in range(6)]
        for i, g in enumerate(gs):
            g['attrs'] = {'k': 'xy'[i % 2], '{%s}z' % docs.A: '\u3042<&"'}
            g['type'] = 't%d' % i
            g['md'] = [metadata(meta(mc('igt', mc('tier', text='q'), ns=docs.A),
                                     text=None, type='n', id='m'), type='xigt-meta')]
            g['kids'][0]['md'] = [metadata(meta(text='tm'))]
        for cut in range(7):
            for order in itertools.permutations(range(3)):
                cs = [gs[:cut], gs[cut:], []]
                specs = [corpus(*cs[o], nsmap={'a': docs.A}, md=[metadata(meta(text='z'))],
                                id='c%d' % o) for o in order]
                check(d, specs, [[g['attrs']['k'] for g in s['kids']] for s in specs],
                      ['--key-path=@k'], '---', ctx, ('rich', cut, order))
    else:
        outdir(d, ctx)


def many(b, d, ctx):
    """Long files: all pairs of positions of two igts with the same key, and all ways to
    choose a run of every k-th igt; one or two files."""
    size = 40 if ctx.thorough else 20
    specs = [corpus(*[igt('%s%d' % (p, i), tier('t', item('x', '%s%d' % (p, i)))) for i in
                      range(size)]) for p in 'gh']
    n = 0
    for i, j in itertools.combinations(range(size), 2):
        n += 1
        if n % NB != b:
            continue
        for sets in ([(i, j)], [(j,), (i,)], [(i, j), (size - 1 - j,)]):
            fs, ks = [], []
            for f, at in enumerate(sets):
                keys = ['a' if k in at else 'b' if k % 3 else None for k in range(size)]
                fs.append(corpus(*[dict(g, attrs={'k': k} if k else {}) for g, k in
                                   zip(specs[f]['kids'], keys)]))
                ks.append(keys)
            check(d, fs, ks, ['--key-path=@k'], '---', ctx, ('many', sets))


LADDER = (5, 9, 10, 11, 17, 33, 65, 101, 129, 257)


def large(n, part, d, ctx):
    """n different keys, n igts of each of two keys, keys of length n, n files."""
    g = lambda i, k: igt('g%d' % i, tier('t', item('x', 'v%d' % i)), attrs={'k': k})
    def go(what, *files):
        check(d, [corpus(*[g(i, k) for i, k in f], id='c') for f in files],
              [[k for _, k in f] for f in files], ['--key-path=@k'], '---', ctx,
              ('size', what, n))
    go('keys', [(i, 'k%d' % i) for i in range(n)])
    go('keys twice', [(i, 'k%d' % (i // 2)) for i in range(n)],
       [(n + i, 'k%d' % (n - i)) for i in range(n)])
    go('two keys', [(i, 'ab'[i % 2]) for i in range(n)])
    for p in sizes.positions(n, part):
        go('at %d' % p, [(i, 'a' if i < p else 'b') for i in range(n)])
        go('one at %d' % p, [(i, 'a' if i == p else 'b') for i in range(n)])
        if n < 200:
            # keys that differ at one place only
            s = 'x' * n
            go('names %d' % p, [(0, s), (1, s[:p] + 'y' + s[p + 1:]), (2, s[:p] or 'z'),
                                (3, s[:p] + ':' + s[p + 1:])])
    # n files
    for same in (True, False):
        old = NAMES[:]
        NAMES[:] = ['f%d.xml' % (i * 7 % n if n % 7 else i) for i in range(n)]
        try:
            go('files', *[[(i, 'k' if same else 'k%d' % i)] for i in range(n)])
        finally:
            NAMES[:] = old


def outdir(d, ctx):
    """Existing or impossible output directories are refused, nothing changes."""
    inp = os.path.join(d, 'in.xml')
    with open(inp, 'w') as fh:
        fh.write('<xigt-corpus><igt id="i" k="a"/></xigt-corpus>')
    ex = os.path.join(d, 'ex')
    os.mkdir(ex)
    keep = os.path.join(ex, 'a.xml')
    with open(keep, 'w') as fh:
        fh.write('keep')
    fl = os.path.join(d, 'file')
    with open(fl, 'w') as fh:
        fh.write('keep')
    for out in (ex, fl, os.path.join(d, 'no', 'such'), os.path.join(fl, 'x'), inp):
        before = {p: open(p, 'rb').read() for p in (keep, fl, inp)}
        r = cli.run(xigt_partition.main, ['--key-path=@k', out, inp])
        if not r.code:
            raise Violation('output directory %r is accepted' % os.path.relpath(out, d))
        tree = sorted(os.path.relpath(os.path.join(b, f), d)
                      for b, _, fs in os.walk(d) for f in fs)
        if tree != ['ex/a.xml', 'file', 'in.xml'] or before != {
                p: open(p, 'rb').read() for p in (keep, fl, inp)}:
            raise Violation('refused output directory %r, but files changed: %r'
                            % (os.path.relpath(out, d), tree))
        ctx.ev(('outdir', os.path.relpath(out, d)))
    # the same file twice: its igts appear once
    r = cli.run(xigt_partition.main, ['--key-path=@k', os.path.join(d, 'o2'), inp, inp])
    if len(xigtxml.load(os.path.join(d, 'o2', 'a.xml'))) != 1:
        raise Violation('a file given twice')
    ctx.ev(('twice',))
    # igts that cannot be put together (same id) are never dropped silently
    r = cli.run(xigt_partition.main, ['--key-path=@k', os.path.join(d, 'o3'), inp, ex + '2'])
    if not r.code:
        raise Violation('a missing input file is ignored')
    inp2 = os.path.join(d, 'in2.xml')
    with open(inp2, 'w') as fh:
        fh.write('<xigt-corpus><igt id="i" k="a"/></xigt-corpus>')
    r = cli.run(xigt_partition.main, ['--key-path=@k', os.path.join(d, 'o4'), inp, inp2])
    if not r.code and len(xigtxml.load(os.path.join(d, 'o4', 'a.xml'))) != 2:
        raise Violation('an igt with an id used in another file is dropped silently')
    ctx.ev(('same id',))
