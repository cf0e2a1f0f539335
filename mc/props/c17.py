"""C17: loading modes deliver the same igts under every interleaving."""
import gc
import io
import itertools
import os
import weakref
from xml.etree.ElementTree import Element
from mc import docs, sizes, xmlref
from mc.core import Violation
from mc.dom import build, snap, diff, corpus, igt, tier, item, metadata, meta, full_igt
from xigt import XigtCorpus, Igt, Tier, Item
from xigt.codecs import xigtxml, xigtjson

ID = 'C17'
LEVEL = 'model_checking'
RULE = ('explicit-state exploration of a reference model of a corpus being read (loaded '
        'igts, position of each open iterator, rest of the stream): every sequence of '
        'operations (advance iterator 1 or 2, open a fresh iterator 2, complete pass, igts property, '
        'length/index/id lookup with and without refreshing the index, serialisation) up to the depth bound, for every mode, '
        'kind of source and number of igts, replayed on a real corpus with every result '
        'compared; every way of adding igts after one or two passes, and of assigning or taking over igts of corpora read in part; streams of a ladder of sizes '
        'with something else read at every (boundary) position of a pass; distinct = distinct (source, mode, igts, operation sequence)')
ASSUMPTIONS = ['one thread; the file stays open while it is read',
               'in incremental mode length and lookup see the igts loaded so far; in '
               'transient mode they see none']
BOUNDS = {'quick': 'depth 5 (generator and list sources), 4 (files); 0-3 igts',
          'thorough': 'depth 7 resp. 5; 0-3 igts'}

OPS = ['1', '2', 'n', 'L', 'P', 'Z', 'D']
SOURCES = ['gen', 'list', 'xml', 'xmlpath', 'json', 'none']
MODES = ['full', 'incremental', 'transient']


class Model:
    """Reference semantics."""
    def __init__(self, n, mode):
        self.rest = list(range(n))
        self.loaded = []
        self.mode = mode
        self.pos = {}
        self.pulled = 0
        if mode == 'full':
            self.loaded, self.rest = self.rest, []
            self.pulled = n
        # in transient mode an exhausted corpus is simply empty

    def key(self):
        return (tuple(self.rest), len(self.loaded), self.mode,
                tuple(sorted(self.pos.items())))

    def pull(self):
        x = self.rest.pop(0)
        self.pulled += 1
        return x

    def next(self, it):
        """Next igt for iterator it, or None at its end (then closed)."""
        if self.mode == 'transient':
            self.pos[it] = self.pos.get(it, 0)
            if self.rest:
                return self.pull()
            self.pos.pop(it)
            return None
        i = self.pos.get(it, 0)
        if i < len(self.loaded):
            self.pos[it] = i + 1
            return self.loaded[i]
        if self.rest:
            x = self.pull()
            self.loaded.append(x)
            self.pos[it] = i + 1
            return x
        self.pos.pop(it, None)
        return None

    def all(self):
        out = []
        while True:
            x = self.next('all')
            if x is None:
                return out
            out.append(x)


def spec(n):
    return corpus(*[igt('i%d' % j, tier('t', item('x', 'v%d' % j)), type='T')
                    for j in range(n)],
                  id='c', attrs={'{%s}k' % docs.A: 'v'}, nsmap={'a': docs.A},
                  md=[metadata(meta(text='m', type='q'), type='xigt-meta')])


DOC, JSON = {}, {}


def source(src, mode, n, ctx, log):
    s = spec(n)
    if src in ('gen', 'list', 'none'):
        objs = [build(g) for g in s['kids']]
        if src == 'gen':
            def gen():
                for o in objs:
                    log.append(1)
                    yield o
            igts = gen()
        else:
            igts = objs if src == 'list' else None
        head = build(dict(s, kids=[]))
        return XigtCorpus(id=head.id, attributes=head.attributes, nsmap=head.nsmap,
                          metadata=list(head.metadata), igts=igts, mode=mode)
    if n not in DOC:
        DOC[n] = xmlref.write(s, 'i').encode()
        JSON[n] = xigtjson.dumps(build(s))
    if src == 'xml':
        return xigtxml.load(io.BytesIO(DOC[n]), mode=mode)
    if src == 'xmlpath':
        p = os.path.join(ctx.scratch, 'c17-%d-%d' % (os.getpid(), n))
        if not os.path.exists(p):
            with open(p, 'wb') as fh:
                fh.write(DOC[n])
        return xigtxml.load(p, mode=mode)
    return xigtjson.load(io.StringIO(JSON[n]), mode=mode)


def cases(tier):
    for src in SOURCES:
        for mode in MODES:
            for n in range(0, 4) if src != 'none' else [0]:
                d = {'quick': (5, 4), 'thorough': (7, 5)}[tier]
                depth = d[0] if src in ('gen', 'list', 'none') else d[1]
                if n == 0:
                    depth = min(depth, 4)
                for first in OPS:
                    for second in OPS:
                        yield [src, mode, n, depth, first, second]
    for mode in MODES:
        for src in ('xml', 'xmlpath', 'json', 'gen'):
            yield ['lazy', mode, src]
    for mode in ('incremental', 'transient'):
        for src in ('xml', 'xmlpath'):
            yield ['lazybig', mode, src]
    for src in SOURCES:
        for mode in MODES:
            for n in range(0, 4) if src != 'none' else [0]:
                yield ['grow', src, mode, n]
    for src in SOURCES[:-1]:
        for mode in MODES:
            for n in sizes.SIZES if tier == 'thorough' else SPANS:
                yield ['span', src, mode, n]


SPANS = (5, 9, 10, 11, 16, 17, 33, 65, 101, 129)


def spans(src, mode, n, ctx):
    """Long streams: one iterator advanced to every (boundary) position, there
    something else that reads, then both to the end."""
    s = spec(n)
    wants = [xmlref.expected(g, s['nsmap']) for g in s['kids']]
    ps = sizes.positions(n)
    if len(ps) > 12 and n > 33:
        ps = ps[:3] + ps[-3:] + [p for p in ps[3:-3] if p in (
            9, 10, 15, 16, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128)]
    for p in ps + [n]:
        for mid in ('22', '2' * (p + 1), '2' * n, 'n2n', 'L', 'P', 'PP', 'Z', 'D', '2L2', ''):
            for tail in ('1Z2L', '2' * n + '1' * (n - p) + 'LZ'):
                replay(src, mode, n, tuple('1' * p + mid + tail), ctx, wants)
    ctx.sample([src, mode, n])


def run(case, ctx):
    if case[0] == 'lazybig':
        return lazybig(case[1], case[2], ctx)
    if case[0] == 'lazy':
        return lazy(case[1], case[2], ctx)
    if case[0] == 'span':
        return spans(case[1], case[2], case[3], ctx)
    if case[0] == 'grow':
        return grow(case[1], case[2], case[3], ctx)
    src, mode, n, depth, first, second = case
    s = spec(n)
    wants = [xmlref.expected(g, s['nsmap']) for g in s['kids']]
    for rest in itertools.product(OPS, repeat=depth - 2):
        replay(src, mode, n, (first, second) + rest, ctx, wants)
    ctx.sample([src, mode, n, first, second])


def replay(src, mode, n, ops, ctx, wants):
    log = []
    xc = source(src, mode, n, ctx, log)
    m = Model(n, mode)
    what = 'source %s, mode %s, %d igts, operations %s' % (src, mode, n, ' '.join(
        k * len(g) if len(g) < 5 else '%s*%d' % (k, len(g))
        for k, g in ((k, list(g)) for k, g in itertools.groupby(ops))))
    if xc.id != 'c' or xc.nsmap != {'a': docs.A} or \
            xc.attributes != {'{%s}k' % docs.A: 'v'} or len(xc.metadata) != 1 \
            or xc.get_meta('q')[0].text != 'm':
        raise Violation(what + ': the corpus itself is incomplete before reading')
    its = {}
    seen = {}

    def take(o, want):
        """o is the object delivered for stream element `want`."""
        if o.id != 'i%d' % want:
            raise Violation('%s: got igt %r, expected i%d' % (what, o.id, want))
        if o.corpus is not xc or o.get_attribute('a:k', inherit=True) != 'v':
            raise Violation('%s: igt i%d does not lead to its corpus' % (what, want))
        if want in seen:
            if seen[want] is not o:
                raise Violation('%s: igt i%d was loaded twice' % (what, want))
        else:
            r = diff(wants[want], snap(o))
            if r:
                raise Violation('%s: igt i%d: %s' % (what, want, r))
            seen[want] = o

    for done in range(len(ops)):
        op, done = ops[done], ops[:done]
        if op == 'n':
            its.pop('2', None)
            m.pos.pop('2', None)
        elif op in '12':
            if op not in its:
                its[op] = iter(xc)
            o = next(its[op], None)
            want = m.next(op)
            if (o is None) != (want is None):
                raise Violation('%s: iterator %s yields %r, expected %s'
                                % (what, op, o and o.id, want))
            if o is None:
                its.pop(op)
            else:
                take(o, want)
        elif op in 'LP':
            want = m.all()
            if op == 'L':
                got = list(xc)
            elif len(done) % 2:
                got = xc.igts
            else:
                got = list(xc.select(id='i1'))
                want = [w for w in want if w == 1]
            if [o.id for o in got] != ['i%d' % w for w in want]:
                raise Violation('%s: a pass yields %r, expected %r'
                                % (what, [o.id for o in got], want))
            for o, w in zip(got, want):
                take(o, w)
        elif op == 'Z':
            for again in range(1 + len(done) % 2):
                if again:
                    try:
                        xc.refresh_index()  # of what is loaded; reads nothing
                    except Exception as e:
                        raise Violation('%s: refreshing the index raises %r' % (what, e))
                if len(xc) != len(m.loaded):
                    raise Violation('%s: length %d, expected %d'
                                    % (what, len(xc), len(m.loaded)))
                for i, w in enumerate(m.loaded):
                    take(xc[i], w)
                    take(xc['i%d' % w], w)
                for j in range(n + 1):
                    if j not in m.loaded and xc.get('i%d' % j) is not None:
                        raise Violation('%s: i%d is found before it is loaded' % (what, j))
        elif op == 'D':
            want = m.all()
            d = xmlref.read(xigtxml.dumps(xc))
            if [g['id'] for g in d['kids']] != ['i%d' % w for w in want]:
                raise Violation('%s: dumps writes %r, expected %r'
                                % (what, [g['id'] for g in d['kids']], want))
            r = diff([wants[w] for w in want], d['kids'])
            if r:
                raise Violation('%s: dumps: %s' % (what, r))
        if src == 'gen' and len(log) != m.pulled:
            raise Violation('%s: %d igts were read from the source, expected %d'
                            % (what, len(log), m.pulled))
        ctx.st((src, m.key()))
        ctx.transitions += 1
    ctx.traces += 1
    ctx.ev(hash((src, mode, n, ops)))


def grow(src, mode, n, ctx):
    """A corpus that has been read to its end can be added to like any other."""
    for read in (1, 2):
        for k in (1, 2, 3):
            for how in ('append', 'extend', 'insert', 'igts'):
                log = []
                xc = source(src, mode, n, ctx, log)
                what = 'source %s, mode %s, %d igts, %s of %d after %d passes' % (
                    src, mode, n, how, k, read)
                for _ in range(read):
                    list(xc)
                kept = [] if mode == 'transient' else ['i%d' % j for j in range(n)]
                new = [Igt(id='n%d' % j, tiers=[Tier(id='t')]) for j in range(k)]
                if how == 'append':
                    for g in new:
                        xc.append(g)
                    want = kept + [g.id for g in new]
                elif how == 'extend':
                    xc.extend(iter(new))
                    want = kept + [g.id for g in new]
                elif how == 'insert':
                    for g in new:
                        xc.insert(0, g)
                    want = [g.id for g in reversed(new)] + kept
                else:
                    xc.igts = iter(new)
                    want = [g.id for g in new]
                for again in range(2):
                    got = [g.id for g in xc]
                    if got != want:
                        raise Violation('%s: pass %d yields %r, expected %r'
                                        % (what, again, got, want))
                if [g.id for g in xc.igts] != want or len(xc) != len(want) or \
                        [g['id'] for g in xmlref.read(xigtxml.dumps(xc))['kids']] != want:
                    raise Violation('%s: igts, length or dump differ' % what)
                for g in new:
                    if xc.get(g.id) is not g or g.corpus is not xc or \
                            [x.id for x in xc.select(id=g.id)] != [g.id]:
                        raise Violation('%s: %s is not found' % (what, g.id))
                ctx.ev(what)
    # assigning contents replaces what is not read yet, too
    for read in range(n + 1):
        for what in ('new', 'none', 'half', 'itself'):
            xc = source(src, mode, n, ctx, [])
            it = iter(xc)
            got = [next(it).id for _ in range(read)]
            if what == 'itself':
                xc.igts = xc
                want = ['i%d' % j for j in range(read if mode == 'transient' else 0, n)]
            elif what == 'half':
                new = [Igt(id='n0')] + [g for g in [next(it, None)] if g is not None]
                xc.igts = new
                want = [g.id for g in new]
            else:
                want = ['n0', 'n1'] if what == 'new' else []
                xc.igts = [Igt(id=i) for i in want] or None
            for again in range(2):
                ids = [g.id for g in xc]
                if ids != want or len(xc) != len(want):
                    raise Violation('source %s, mode %s, %d igts, %d read, %s assigned: pass %d '
                                    'yields %r, expected %r' % (src, mode, n, read, what, again, ids, want))
            ctx.ev(('assign', src, mode, n, read, what))
    # contents taken from a corpus of any mode, as far as it is read
    for read in range(n + 1):
        for to in ('full', 'incremental', 'transient', 'assign', 'extend'):
            xc = source(src, mode, n, ctx, [])
            it = iter(xc)
            for _ in range(read):
                next(it)
            want = ['i%d' % j for j in range(read if mode == 'transient' else 0, n)]
            if to == 'assign':
                new = XigtCorpus(igts=[Igt(id='x')])
                new.igts = xc
            elif to == 'extend':
                new = XigtCorpus()
                new.extend(xc)
            else:
                new = XigtCorpus(igts=xc, mode=to)
            ids = [g.id for g in new]
            if ids != want:
                raise Violation('source %s, mode %s, %d igts, %d read, igts of another corpus (%s): '
                                '%r, expected %r' % (src, mode, n, read, to, ids, want))
            ctx.ev(('taken', src, mode, n, read, to))


class Counting(io.BytesIO):
    total = 0

    def read(self, n=-1):
        r = io.BytesIO.read(self, n)
        self.total += len(r)
        return r


def lazybig(mode, src, ctx):
    """With igts larger than any read buffer: what is read and what is kept is
    exact to a few igts at every position."""
    N = 40
    pad = 'x' * 70000
    s = corpus(*[igt('g%d' % i, tier('t', item('a', pad), type='q')) for i in range(N)],
               id='c')
    raw = xmlref.write(s, 'i').encode()
    size = len(raw)
    fh = Counting(raw)
    if src == 'xmlpath':
        p = os.path.join(ctx.tmp(), 'f.xml')
        with open(p, 'wb') as f:
            f.write(raw)
        xc = xigtxml.load(p, mode=mode)
        fh = None
    else:
        xc = xigtxml.load(fh, mode=mode)
    del raw, s
    def elements():
        return sum(1 for o in gc.get_objects() if isinstance(o, Element)
                   and str(o.tag).endswith('igt'))
    gc.collect()
    base = (elements(), sum(1 for o in gc.get_objects() if isinstance(o, Igt)))
    k = 0
    if fh is not None and fh.total > size * 4 // N:
        raise Violation('mode %s: %d of %d bytes are read before the first igt is '
                        'asked for' % (mode, fh.total, size))
    for g in xc:
        if fh is not None and fh.total > size * min(N, k + 5) // N + 1:
            raise Violation('mode %s, source %s: %d of %d bytes are read for igt %d of %d'
                            % (mode, src, fh.total, size, k, N))
        n = elements() - base[0]
        if n > 6:
            raise Violation('mode %s, source %s: %d elements of the document are kept '
                            'at igt %d' % (mode, src, n, k))
        if mode == 'transient':
            gc.collect()
            n = sum(1 for o in gc.get_objects() if isinstance(o, Igt)) - base[1]
            if n > 3:
                raise Violation('transient mode, source %s: %d igts are in memory at '
                                'igt %d' % (src, n, k))
        if g.id != 'g%d' % k or g[0][0].text != pad:
            raise Violation('mode %s, source %s: igt %d is wrong' % (mode, src, k))
        k += 1
        ctx.ev(('lazybig', mode, src, k))
    if k != N:
        raise Violation('mode %s, source %s: %d igts instead of %d' % (mode, src, k, N))


def lazy(mode, src, ctx):
    """Igts are read as needed; transient igts are not kept."""
    N = 400
    gc.collect()
    igts0 = sum(1 for o in gc.get_objects() if isinstance(o, Igt))
    s = corpus(*[full_igt('g%d' % i) for i in range(N)], id='c')
    log = []
    fh = None
    if src == 'gen':
        def gen():
            for g in s['kids']:
                log.append(1)
                yield build(g)
        xc = XigtCorpus(id='c', igts=gen(), mode=mode)
    elif src == 'json':
        xc = xigtjson.load(io.StringIO(xigtjson.dumps(build(s))), mode=mode)
    elif src == 'xml':
        fh = Counting(xmlref.write(s, 'i').encode())
        size = len(fh.getvalue())
        xc = xigtxml.load(fh, mode=mode)
    else:
        p = os.path.join(ctx.tmp(), 'f.xml')
        with open(p, 'wb') as f:
            f.write(xmlref.write(s, 'i').encode())
        xc = xigtxml.load(p, mode=mode)
    if mode != 'full' and fh is not None and fh.total > size / 2:
        raise Violation('mode %s: %d of %d bytes were read before the first igt is asked '
                        'for' % (mode, fh.total, size))
    if mode != 'full' and src == 'gen' and log:
        raise Violation('mode %s reads igts before they are asked for' % mode)
    refs = []
    k = 0
    for g in xc:
        if g.id != 'g%d' % k:
            raise Violation('mode %s, source %s: igt %d is %r' % (mode, src, k, g.id))
        if mode != 'full' and fh is not None and k < N / 4 and fh.total > size * 3 / 4:
            raise Violation('mode %s: %d of %d bytes were read for igt %d'
                            % (mode, fh.total, size, k))
        if g['w']['w2'].value() != 'cd':
            raise Violation('mode %s, source %s: igt %d is incomplete' % (mode, src, k))
        if k % 20 == 3:
            if mode == 'transient' and refs:
                gc.collect()
                alive = sum(1 for r in refs if r() is not None)
                if alive:
                    raise Violation('transient mode keeps %d of %d igts in memory at igt '
                                    '%d (source %s)' % (alive, len(refs), k, src))
                ahead = sum(1 for o in gc.get_objects() if isinstance(o, Igt)) - igts0
                if ahead > 100:
                    raise Violation('transient mode has %d igts in memory at igt %d '
                                    '(source %s)' % (ahead, k, src))
            refs.append(weakref.ref(g))
        if k == N - 2 and mode != 'full' and src.startswith('xml'):
            # nor are the elements of the document
            n = sum(1 for o in gc.get_objects() if isinstance(o, Element)
                    and str(o.tag).endswith('igt'))
            if n > N / 2:
                raise Violation('mode %s: %d elements are kept after %d igts' % (mode, n, k))
        k += 1
        ctx.ev(('lazy', mode, src, k))
    if k != N:
        raise Violation('mode %s, source %s: %d igts instead of %d' % (mode, src, k, N))
    del g
    gc.collect()
    alive = sum(1 for r in refs if r() is not None)
    if mode == 'transient' and alive:
        raise Violation('transient mode keeps %d of %d igts in memory (source %s)'
                        % (alive, len(refs), src))
    if mode != 'transient' and alive != len(refs):
        raise Violation('%s mode does not keep the igts in memory' % mode)
