"""C21: threads do not disturb each other."""
import io
import threading
import warnings
from mc import xmlref, jsonref, stubs
stubs.install()
from mc.core import Violation
from mc.dom import (build, snap, walk, corpus, igt, tier, item, metadata, meta, mc)
from mc.sched import Sched
from mc.fresh import Fresh
from xigt import Igt, Tier, Item, Metadata, Meta
from xigt import ref, query, xigtpath as xp
from xigt.codecs import xigtxml, xigtjson
from xigt.exporters import latex
from xigt.importers import odin, toolbox
from xigt.scripts import xigt_query, xigt_validate
import json
import os

ID = 'C21'
LEVEL = 'model_checking'
CASE_CPU = 120
CASE_CPU_THOROUGH = 600
IMPORTS = ('xigt', 'xigt.xigtpath', 'xigt.query', 'xigt.ref', 'xigt.exporters.latex',
           'xigt.importers.odin', 'xigt.importers.toolbox', 'xigt.scripts.xigt_query',
           'xigt.scripts.xigt_validate')
RULE = ('two real threads under a controlled scheduler; every ordered pair of operations (quick: '
       'each operation against all others run in sequence), and of importing, exporting, validating and '
       'formatting, '
        'on two separate corpora (with conflicting prefixes, ids and references), on two '
        'igts of one corpus, and (reading) on one shared corpus; every schedule with one '
        'preemption, at every executed line of xigt (thorough: at every bytecode '
        'instruction, and every schedule with two preemptions at function entries); every '
        'schedule starts from the state right after importing xigt (no warm caches); each '
        'result compared with the one obtained alone; distinct = distinct (pair, schedule)')
ASSUMPTIONS = ['one container is not modified by one thread while another one uses it']
BOUNDS = {'quick': '2 threads, 1 preemption, line granularity',
          'thorough': '2 threads, 1 preemption at instruction and 2 at call granularity'}
FRESH = Fresh()
A, B = 'http://ex.org/a', 'urn:b'


def spec(k):
    """Two documents that disagree about prefixes, ids and references."""
    if k == 0:
        g = igt('i', tier('w', item('w1', 'ab', attrs={'{%s}k' % A: '1'}), type='words'),
                tier('m', item('m1', attrs={'segmentation': 'w1[0:1]'}),
                     attrs={'segmentation': 'w'}, type='m'),
                md=[metadata(meta(mc('x', text='y', ns=A), type='n'), type='xigt-meta')])
        return corpus(g, id='c', nsmap={'a': A, 'b': B})
    g = igt('j', tier('m', item('m1', 'cd', attrs={'{%s}k' % B: '2'}), type='words'),
            tier('w', item('w1', attrs={'alignment': 'm1', 'content': 'm1[1:2]'}), ns=B,
                 attrs={'alignment': 'm', 'content': 'm'}),
            md=[metadata(meta(mc('z', text='q', ns=B), type='n', text='t'),
                         type='xigt-meta', ns=A)])
    return corpus(g, id='d', nsmap={'a': B, 'b': A})


XMLTEXT = [xmlref.write(spec(k)) for k in (0, 1)]
JSONTEXT = [json.dumps(jsonref.write(spec(k), 'p')) for k in (0, 1)]


def ix(xc, v):
    """Results as positions in the corpus."""
    pos = {id(o): n for n, o in enumerate(walk(xc))}

    def c(x):
        if id(x) in pos:
            return pos[id(x)]
        if isinstance(x, dict):
            return sorted((k, c(y)) for k, y in x.items())
        if isinstance(x, (list, tuple)):
            return [c(y) for y in x]
        return x
    return c(v)


# reading operations: corpus -> result
READ = {
    'dump xml': lambda xc, k: xigtxml.dumps(xc),
    'dump json': lambda xc, k: xigtjson.dumps(xc),
    'encode item': lambda xc, k: xigtxml.encode_item(xc[0][0][0]),
    'path': lambda xc, k: ix(xc, [xp.findall(xc, p) for p in (
        '//item[@a:k="1"]/text()', 'igt/(tier|metadata)//x', '//tier/referent()')]),
    'path2': lambda xc, k: ix(xc, [xp.findall(xc, p) for p in (
        '//item/value()', '//tier/referrer("content", "segmentation")/@id',
        'igt[tier/@type="words"]/metadata//*')]),
    'values': lambda xc, k: [o.value() for o in walk(xc) if isinstance(o, Item)],
    'refs': lambda xc, k: [ix(xc, [o.referents(), o.referrers(), o.referrers(['alignment']),
                                   o.referents(['content'])])
                           for o in walk(xc) if isinstance(o, (Tier, Item))],
    'query': lambda xc, k: ix(xc, [list(query.ancestors(xc[0][1][0])),
                                   list(query.descendants(xc[0][0]))]),
    'lookup': lambda xc, k: ix(xc, [xc[0].get('w'), xc[0].get_item('w1'), xc[0].get_any('m1'),
                                    list(xc[0].select(type='words')),
                                    list(xc[0].select(namespace='b')),
                                    xc[0].get_meta('n'), xc[0][0][0].get_attribute('a:k'),
                                    xc[0][0][0].get_attribute('k', namespace='b',
                                                              inherit=True)]),
    'equal': lambda xc, k: [xc == xc, xc[0] == xc[0], xc[0][0] != xc[0][1],
                            xc.metadata == xc[0].metadata],
    'iterate': lambda xc, k: ix(xc, [[i for t in g for i in t] for g in xc]),
}


def modify(g, k):
    g.append(Tier(id='n', items=[Item(id='n1', text='zz'), Item(id='n2')],
                  attributes={'alignment': 'w'}))
    g[0].append(Item(id='q', text='x'))
    del g['m'][0]
    g.insert(0, Tier(id='first'))
    g.metadata = [Metadata(id='mm', metas=[Meta(type='n', text='t')])]
    g.refresh_indices()
    return [snap(g), sorted(g.referrers('w')['alignment']), g.get_item('n1').text]


def sort(g, k):
    g.append(Tier(id='n', attributes={'segmentation': 'm'}))
    g.append(Tier(id='o', attributes={'content': 'w'}))
    g.sort_tiers(('segmentation', 'content') if k else ('content', 'segmentation'))
    return [t.id for t in g]


# what the commands are made of, with different options
D = [None]
TOOLBOX = ['\\ref r1\n\\t ab\n\\m a -b\n\\g A -B\n\\f x\n',
           '\\id q1\n\\t cd e\n\\m cd e\n\\g C  E\n\\q w\n']
ODIN = ['doc_id: 1\nigt_id: i1\nline_range: 1 2\nline_types: L G\nlanguage: GERMAN (deu)\n'
        'iso-639-3: deu\nline=1 tag=L:a\x01b\nline=2 tag=G:c\n\n',
        'doc_id: 2\nigt_id: j1\nline_range: 3 3\nline_types: T\nlanguage: FRENCH (fra)\n'
        'iso-639-3: fra\nline=3 tag=T:d\x02e\n\n']


def _import(mod, texts, options, k):
    src, dst = (os.path.join(D[0], n + str(k)) for n in ('in', 'out'))
    with open(src, 'w') as fh:
        fh.write(texts[k])
    mod.xigt_import(src, dst, options)
    with open(dst) as fh:
        return fh.read()


def retext(k):
    s = spec(0)
    s['kids'][0]['kids'][0]['kids'][0]['text'] = ('ab', 'c_d')[k]
    return s


def _export(xc, k):
    dst = os.path.join(D[0], 'tex%d' % k)
    latex.xigt_export(xc, dst, {'tier_types': ['words', 'm'], 'item_substitutions': [
        ['.*', [['[ac]', 'Q']]]]} if k else {'tier_types': ['words', 'm']})
    with open(dst) as fh:
        return fh.read()


COMMAND = {
    'toolbox': lambda k: _import(toolbox, TOOLBOX, {'record_markers': ['\\id'], 'make_phrase_tier': None} if k else None, k),
    'odin': lambda k: _import(odin, ODIN, {'replacement_char': '?', 'keep_headers': True} if k
                              else {}, k),
    'format': lambda k: [xigt_query.safe_format(s, query='q%d' % k, match='m%d' % k)
                         for s in (['{query}{a}', '{match!s:>4}'] if k else
                                   ['a {{x}} {match}', '{nosuch.a!r:x}'])],
    'validate': lambda k: xigt_validate.validate_corpus(build(spec(k)), xigt_validate.make_context(
        build(spec(k)), k, '<xigt-corpus>', 'x', ids={})),
    'latex': lambda k: _export(build(retext(k)), k),
}


# operations on one igt
OWN = {'modify': modify, 'sort': sort,
       'indices': lambda g, k: (g.refresh_indices(tiers=True), g.get_item('w1').id)[1]}

# operations without an object
FREE = {
    'load xml': lambda k: snap(xigtxml.loads(XMLTEXT[k])),
    'load json': lambda k: snap(xigtjson.loads(JSONTEXT[k])),
    'load lazily': lambda k: [snap(g) for g in xigtxml.load(io.BytesIO(
        XMLTEXT[k].encode()), mode='transient')],
    'convert': lambda k: xigtjson.dumps(xigtxml.loads(XMLTEXT[k])),
    'build': lambda k: snap(build(spec(k))),
    'refs strings': lambda k: [f(e) for e in (
        ['a1[0:1+2:3],b1', 'x y'] if k else ['b1,a1[1:2]+a1[2:3]', 'q[0:1]'])
        for f in (ref.expand, ref.compress, ref.selections, ref.spans, ref.ids)],
}


def batch(kind):
    """All operations of a kind, one after the other."""
    fns = list(kind.values())
    return lambda x, k: [fn(x, k) for fn in fns]


READ['every'] = batch(READ)
FREE['every'] = lambda k: [fn(k) for n, fn in FREE.items() if n != 'every']
COMMAND['every'] = lambda k: [fn(k) for n, fn in COMMAND.items() if n != 'every']
TWO = [('f', 'load xml'), ('f', 'load json'), ('r', 'dump xml'), ('r', 'refs')]


def cases(tier):
    ops = [('f', n) for n in FREE] + [('r', n) for n in READ] + [('o', n) for n in OWN]
    single = [o for o in ops if o[1] != 'every']
    every = [('f', 'every'), ('r', 'every')]
    big = tier == 'thorough'
    for u in (['line'] if not big else ['line', 'opcode']):
        for a in single:
            for b in [e for e in every if e[0] != a[0]][:1] + [('o', 'modify')] \
                    if u == 'opcode' else ops if big else every + [('o', 'modify')]:
                yield [u, 'apart', a, b]
        for a in COMMAND:
            if a != 'every':
                for b in ('every', a) if u == 'line' else (a,):
                    yield [u, 'apart', ('c', a), ('c', b)]
        for a in READ:
            if a != 'every':
                for b in READ if big and u == 'line' else ['every']:
                    yield [u, 'shared', ('r', a), ('r', b)]
        for a in list(OWN) + ['read']:
            for b in list(OWN) + ['read']:
                yield [u, 'siblings', ('o', a), ('o', b)]
    if big:
        for a in TWO:
            for b in TWO:
                for part in range(8):
                    yield ['call2.%d' % part, 'apart', a, b]


def setup(mode, a, b):
    """Two functions to run in threads, on fresh objects."""
    if mode == 'siblings':
        s = spec(0)
        s['kids'].append(dict(spec(1)['kids'][0], nsmap={'a': B, 'b': A}))
        xc = build(s)
        gs = [xc[0], xc[1]]
        OWN2 = dict(OWN, read=lambda g, k: [snap(g), xp.findall(g, 'tier/item/@id'),
                                            g.referrers('w')])
        return [lambda k=k, n=n: OWN2[n](gs[k], k) for k, (_, n) in enumerate((a, b))]
    if mode == 'shared':
        xc = build(spec(0))
        return [lambda k=k, n=n: READ[n](xc, k) for k, (_, n) in enumerate((a, b))]
    out = []
    for k, (kind, n) in enumerate((a, b)):
        if kind == 'f':
            out.append(lambda n=n, k=k: FREE[n](k))
        elif kind == 'c':
            out.append(lambda n=n, k=k: COMMAND[n](k))
        else:
            xc = build(spec(k))
            if kind == 'r':
                out.append(lambda n=n, k=k, xc=xc: READ[n](xc, k))
            else:
                out.append(lambda n=n, k=k, xc=xc: OWN[n](xc[0], k))
    return out


def run(case, ctx):
    unit, mode, a, b = case
    a, b = tuple(a), tuple(b)
    part = None
    if '.' in unit:
        unit, part = unit.split('.')
    D[0] = ctx.tmp()
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        # alone, one after the other, traced only to count the points
        u = {'call2': 'call'}.get(unit, unit)
        want, n = [], []
        for k in (0, 1):
            for _ in range(2):      # the first run also warms up opcode tracing
                FRESH.reset()
                s = Sched([setup(mode, a, b)[k]], [], u, total=True)
                r = s.run()
            want.append(r[0])
            n.append(s.points[0])
            if r[0][0] != 'ok':
                raise Violation('%r: %s %s alone' % ((a, b)[k], r[0][0], r[0][1]))
        if unit == 'call2':
            cuts = [[i, j] for i in range(1, n[0] + 1) for j in range(1, n[1] + 1)
                    if i % 8 == int(part)]
        else:
            cuts = [[i] for i in range(1, n[0] + 1)]
        for c in cuts:
            FRESH.reset()
            s = Sched(setup(mode, a, b), c, u)
            got = s.run()
            if got == 'deadlock':
                raise Violation('%r and %r deadlock with preemptions at %r' % (a, b, c))
            for k in (0, 1):
                if got[k] != want[k]:
                    raise Violation(
                        '%s: %r %s when %r runs in another thread, preempted at point %r '
                        '(%s); %s alone' % (mode, (a, b)[k], str(got[k])[:500],
                                            (b, a)[k], c, s.where, str(want[k])[:500]))
            ctx.ev((unit, mode, a, b, tuple(c)))
            ctx.transitions += sum(n)
            ctx.st([mode, a, b, s.where])
            ctx.traces += 1
        ctx.out('%s %s' % (mode, unit))
        ctx.sample([mode, a, b, n])
