"""Runs a fixed list of workloads in the environment it is started in and prints
what they returned, as JSON.  Used by C33; also under python -O, so no assert.

envwork.py REPO DIR ORDER POLICY PATHS   (ORDER forward|reverse|twice|alone:NAME,
POLICY = comma-separated set=sorted|reversed|rotated, files=reversed,
enc=latin-1|cp1252|ascii; PATHS rel|abs)"""
import builtins
import glob
import io
import json
import os
import sys

REPO, TOP, ORDER, POLICY, PATHS = sys.argv[1:6]
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [REPO, HERE]
POLICY = dict(x.split('=') for x in POLICY.split(',') if x)

if 'enc' in POLICY:
    # text files opened without an encoding have that of the locale
    real_open = builtins.open

    def locale_open(file, mode='r', buffering=-1, encoding=None, *a, **k):
        if 'b' not in mode and encoding is None:
            encoding = POLICY['enc']
        return real_open(file, mode, buffering, encoding, *a, **k)
    builtins.open = io.open = locale_open
if POLICY.get('files') == 'reversed':
    # directories may be listed in any order
    def flip(f):
        return lambda *a, **k: sorted(f(*a, **k), reverse=True)
    os.listdir = flip(os.listdir)
    found = glob.iglob
    glob.glob = lambda *a, **k: sorted(found(*a, **k), reverse=True)

from mc import stubs  # noqa: E402
stubs.install()
from mc import cli, docs, xmlref  # noqa: E402
from mc.dom import (corpus, igt, tier, item, metadata, meta, mc, build, full_igt, snap,
                    walk, kind)  # noqa: E402
import xigt  # noqa: E402
from xigt import xigtpath, query, ref  # noqa: E402
from xigt.codecs import xigtxml, xigtjson  # noqa: E402
import xigt.main  # noqa: E402
import xigt.importers.odin, xigt.importers.toolbox  # noqa: E402,E401
import xigt.exporters.latex, xigt.exporters.itsdb  # noqa: E402,E401
import xigt.scripts.xigt_export, xigt.scripts.xigt_import  # noqa: E402,E401
import xigt.scripts.xigt_partition, xigt.scripts.xigt_query  # noqa: E402,E401
import xigt.scripts.xigt_sort, xigt.scripts.xigt_validate  # noqa: E402,E401

if 'set' in POLICY:
    class Ordered(set):
        """A set that is iterated in the order asked for."""
        def __iter__(self):
            xs = sorted(set.__iter__(self), key=repr)
            if POLICY['set'] == 'reversed':
                xs.reverse()
            elif POLICY['set'] == 'rotated' and xs:
                xs = xs[len(xs) // 2:] + xs[:len(xs) // 2]
            return iter(xs)

        def pop(self):
            for x in self:
                self.discard(x)
                return x
            raise KeyError('pop from an empty set')

    def again(name):
        return lambda self, *a: Ordered(getattr(set, name)(self, *a))
    for n in ('union', 'difference', 'intersection', 'symmetric_difference', 'copy'):
        setattr(Ordered, n, again(n))
    for n in ('__or__', '__and__', '__sub__', '__xor__', '__ror__', '__rand__', '__rsub__',
              '__rxor__'):
        setattr(Ordered, n, again(n))
    for name, mod in list(sys.modules.items()):
        if name.split('.')[0] == 'xigt':
            mod.set = mod.frozenset = Ordered


# ------------------------------------------------------------- workloads

UMLAUT = '\u00e9 \u4e2d \U0001f600 \u0416'
A, B, C = 'http://ex.org/a', 'urn:b', 'urn:c'


def sample():
    md = [metadata(meta(mc('l', ns=A, text=UMLAUT, attrs={'{%s}k' % B: UMLAUT}), id='m1'),
                   meta(id='m2', type='t', text='x ' + UMLAUT))]
    g1 = full_igt('g1')
    g2 = dict(full_igt('g2'), attrs={'k': 'b', '{%s}z' % C: UMLAUT}, md=md)
    g3 = igt('g3', tier('p', item('p1', UMLAUT), type='phrases'),
             tier('w', item('w1', attrs={'segmentation': 'p1[0:1]'}),
                  item('w2', attrs={'segmentation': 'p1[2:3]'}), type='words',
                  attrs={'segmentation': 'p'}),
             tier('g', item('x1', 'q', attrs={'alignment': 'w1'}),
                  item('x2', 'r', attrs={'alignment': 'w1,w2'}), type='glosses',
                  attrs={'alignment': 'w'}), attrs={'k': 'a'})
    return corpus(g1, g2, g3, nsmap={'a': A, 'b': B, 'c': C, 'd': 'urn:d', 'e': 'urn:e'})


def broken():
    return corpus(
        igt('g1', tier('w', item('w1', 'a'), item('w2', 'b'), item(None), type='words'),
            tier('m', item('m1', attrs={'segmentation': 'w1[0:9],zz,w2[3:4]', 'content': 'q,r'}),
                 item('m2', attrs={'alignment': 'y,x', 'segmentation': 'w1+w9', 'content': 'c'}),
                 item('m3', attrs={'alignment': 'bad[', 'content': 'd,c,b,a'}),
                 attrs={'alignment': 'gone', 'segmentation': 'w'}),
            tier('x', item('w1', attrs={'content': 'm1', 'segmentation': 's'}),
                 item('x2', attrs={'alignment': 'm1'}), type='t'),
            tier('o', *[item('o%d' % i, 'abcd') for i in range(5)], type='t'),
            tier('y', item('y1', attrs={'alignment': '+'.join(
                     'o%d[0:2]+o%d[1:9]+o%d+z%d+o%d[x:1]' % (i, i, i, i, i)
                     for i in (3, 0, 4, 1, 2))}),
                 item('y2', attrs={'content': 'a', 'segmentation': 'b', 'alignment': 'o1'}),
                 attrs={'alignment': 'o'})),
        igt('g2', tier(None, item(None)), tier('w'), tier(None)), igt(None))


def tail(p):
    """How a path is called here."""
    return os.path.relpath(p) if PATHS == 'rel' else os.path.abspath(p)


def put(d, name, data):
    p = os.path.join(d, name)
    with open(p, 'wb') as fh:
        fh.write(data if isinstance(data, bytes) else data.encode('utf-8'))
    return tail(p)


def tree(d):
    out = {}
    for p, ds, fs in os.walk(d):
        for f in fs:
            with open(os.path.join(p, f), 'rb') as fh:
                out[os.path.relpath(os.path.join(p, f), d)] = fh.read().hex()
        for x in ds:
            out[os.path.relpath(os.path.join(p, x), d)] = None
    return [[k, out[k]] for k in sorted(out)]


def show(x, d):
    """JSON-able, without anything that depends on the place."""
    if isinstance(x, BaseException):
        return [type(x).__name__, show(str(x), d)]
    if isinstance(x, str):
        return x.replace(tail(d), 'D').replace(os.path.abspath(d), 'D').replace(
            os.path.relpath(d), 'D')
    if isinstance(x, bytes):
        return x.hex()
    if isinstance(x, dict):
        return [[show(k, d), show(v, d)] for k, v in x.items()]
    if kind(x) in ('corpus', 'igt', 'tier', 'item', 'metadata', 'meta', 'mc', 'xc', 'md'):
        return [kind(x), getattr(x, 'id', None), getattr(x, 'name', None)]
    if isinstance(x, (list, tuple)) or hasattr(x, '__next__'):
        return [show(y, d) for y in x]
    if x is None or isinstance(x, (int, float, bool)):
        return x
    return repr(x)


def attempt(f):
    try:
        return f()
    except Exception as e:
        return e


def w_xml(d):
    src = put(d, 'in.xml', xmlref.write(sample()))
    for mode in ('full', 'incremental', 'transient'):
        xc = xigtxml.load(src, mode=mode)
        yield mode, [[show(g, d), repr(snap(g))] for g in xc]
    xc = xigtxml.load(src)
    yield 'text', xigtxml.dumps(xc)
    for enc in ('utf-8', 'ascii', 'iso-8859-1', 'utf-16-le', 'unicode'):
        xigtxml.dump(os.path.join(d, 'o-' + enc), xc, encoding=enc)
    for bad in (b'', b'<a/>', b'<xigt-corpus>', b'<xigt-corpus><igt id="1"/></xigt-corpus>',
                b'<xigt-corpus><igt id="a"/><igt id="a"/></xigt-corpus>',
                b'<xigt-corpus><igt><tier><item segmentation="a" content="b"/></tier></igt>'
                b'</xigt-corpus>', b'<tier/>', b'\xff'):
        for mode in ('full', 'transient'):
            yield 'bad', attempt(lambda: [snap(g) for g in xigtxml.load(io.BytesIO(bad),
                                                                        mode=mode)])
    yield 'files', tree(d)


def w_json(d):
    xc = build(sample())
    yield 'text', xigtjson.dumps(xc)
    raw = json.dumps(json.loads(xigtjson.dumps(xc)), ensure_ascii=False)
    src = put(d, 'in.json', raw)
    for mode in ('full', 'incremental', 'transient'):
        yield mode, [repr(snap(g)) for g in xigtjson.load(src, mode=mode)]
    for ind in (None, 2):
        xigtjson.dump(os.path.join(d, 'o%s' % ind), xc, indent=ind)
    for bad in ('', '[]', '{}', '{"igts": [{"id": "1"}]}', '{"igts": [{"id":"a"},{"id":"a"}]}',
                '{"igts": 1}', '{"igts": [{"tiers": [{"items": [{"x": 1}]}]}]}'):
        yield 'bad', attempt(lambda: [repr(snap(g)) for g in xigtjson.loads(bad)])
    yield 'files', tree(d)


def w_refs(d):
    xc = build(corpus(dict(sample()['kids'][1]), igt('h', tier('a', item('a1', 'x', attrs={'alignment': 'b1,c1'}),
                            attrs={'alignment': 'b', 'content': 'c', 'segmentation': 'a'}),
                  tier('b', item('b1', attrs={'content': 'a1'}),
                       item('b2', attrs={'alignment': 'c1', 'content': 'a1'}),
                       attrs={'content': 'a', 'alignment': 'c'}),
                  tier('c', item('c1', attrs={'segmentation': 'b1', 'content': 'b2'}),
                       attrs={'segmentation': 'b', 'content': 'b'}))))
    for x in xc:
        for t in x:
            for o in [t] + list(t):
                yield 'referents', o.referents()
                yield 'referrers', o.referrers()
                yield 'some', [o.referents(refattrs=r) for r in (['content'], ['alignment',
                                                                               'content'])]
                for fn, kw in ((query.ancestors, {}), (query.descendants, {}),
                               (query.descendants, {'follow': 'all'})):
                    yield fn.__name__, attempt(lambda: list(fn(o, **kw)))
        for p in ('//*', 'tier/item/@*', './/referrer()', '//item/referent()',
                  '(tier | //item | .)', 'tier[item]/item[@alignment or @content]',
                  '//item[referent()]/value()', 'tier/', '[', 'tier[@x="'):
            yield p, attempt(lambda: xigtpath.findall(x, p))
        x.sort_tiers()
        yield 'sorted', [t.id for t in x]
        yield 'values', [attempt(i.value) for t in x for i in t]
    for e in ('a[0:1],b+c[1:2+3:4]', 'a b', '', None, 'a', 'a[0:1],a[2:3]', '1', '+a'):
        for fn in (ref.ids, ref.spans, ref.selections, ref.expand, ref.compress):
            yield fn.__name__, attempt(lambda: fn(e))
    xc = build(sample())
    for f in (lambda: xc.append(xigt.Igt(id='g1')), lambda: xc.append(1),
              lambda: xc.append(None), lambda: xigt.Item(id='1'), lambda: xc['zz'],
              lambda: xc[99], lambda: xigt.Item(segmentation='a', content='b'),
              lambda: xigt.MetaChild('1'), lambda: xigt.XigtCorpus(mode='x'),
              lambda: xigt.Item().get_attribute(None), lambda: xigt.Item(id='x').span(0),
              lambda: xigtxml.dump(os.path.join(d, 'x'), 1), lambda: xigtjson.dumps(None),
              lambda: xc['g1'].refresh_indices(1)):
        yield 'refused', attempt(f)


def command(d, name, args, both=False):
    mod = sys.modules['xigt.scripts.xigt_' + name]
    r = cli.run(mod.main, args, both)
    return [r.code, r.exc, r.out, r.err]


def w_query(d):
    srcs = [put(d, 'a.xml', xmlref.write(sample())), put(d, 'b.xml', xmlref.write(broken()))]
    for args in (['-f', '//@id'], ['-c', '//item'], ['-u', '//tier/@type'],
                 ['-t', '//item', '@alignment | text()'], ['-t', 'igt', 'tier/@id'],
                 ['-t', '//*', '@type | @alignment | @segmentation'], ['-u', '//item/@*'],
                 ['-f', 'igt/tier', '-d', '{match.id} {match.type}'], ['-f', 'igt/@id', '-D', '{filename}!'],
                 ['-f', 'igt['], ['-f', '//item[@segmentation]/@segmentation', '-c', 'igt',
                                  '-u', '//@k', '-t', '//tier', '@id']):
        yield ' '.join(args), command(d, 'query', args + srcs)


def w_partition(d):
    srcs = [put(d, 'a.xml', xmlref.write(sample())), put(d, 'b.xml', xmlref.write(
        corpus(igt('n1', attrs={'k': 'b'}), igt('n2', attrs={'k': 'c:/d'}), igt('n3'))))]
    for i, key in enumerate(('@k', '@id', 'tier/@type', '@{%s}z' % C, 'metadata/meta/@type')):
        yield key, command(d, 'partition', ['--key-path=' + key, '--default-key=none',
                                            tail(os.path.join(d, 'out%d' % i))] + srcs)
    yield 'files', tree(d)


def w_sort(d):
    s = sample()
    p = put(d, 'p.xml', xmlref.write(corpus(full_igt('b2'), full_igt('b10'), full_igt('a'))))
    for args in (['--igt-key=@id'], ['--tier-key=@type'], ['--item-key=value()'],
                 ['--tier-deps=alignment,segmentation,content'],
                 ['--igt-key=@k', '--igt-key=@id', '--tier-key=@id']):
        yield ' '.join(args), command(d, 'sort', args + [p])
        q = put(d, 'q%d.xml' % len(args[0]), xmlref.write(s))
        yield 'in place', command(d, 'sort', args + ['--in-place', q])
    yield 'files', tree(d)


def w_validate(d):
    srcs = [put(d, 'a.xml', xmlref.write(sample())), put(d, 'b.xml', xmlref.write(broken())),
            put(d, 'c.xml', '<xigt-corpus><igt>')]
    for args in ([], ['-v'], ['-vv'], ['-q']):
        yield ' '.join(args), command(d, 'validate', args + srcs)
        yield 'again', command(d, 'validate', args + srcs[::-1])


def w_export(d):
    src = put(d, 'in.xml', xmlref.write(sample()))
    cfg = put(d, 'c.json', json.dumps({'tier_types': ['words', 'glosses', 'phrases'],
                                       'item_substitutions': [['words', [['\u00e9', 'E\u00e9']]]]},
                                      ensure_ascii=False))
    yield 'a', command(d, 'export', ['-i', src, '-o', tail(os.path.join(d, 'o.tex'))])
    yield 'b', command(d, 'export', ['-i', src, '-o', tail(os.path.join(d, 'p.tex')), '-c', cfg])
    rel = put(d, 'Relations', '')
    cfg = put(d, 'd.json', json.dumps({'relations': rel, 'cells': [
        ['i-input', '" ".join(i.value() or "\u00e9" for t in igt for i in t)'],
        ['i-comment', 'igt.id']]}, ensure_ascii=False))
    del stubs.MADE[:]
    yield 'c', command(d, 'export', ['-f', 'itsdb', '-i', src, '-o', tail(os.path.join(
        d, 'sk')), '-c', cfg])
    yield 'rows', [[r for r in rows] for _, _, rows in stubs.MADE]
    os.unlink(os.path.join(d, 'd.json'))  # names a path
    yield 'files', tree(d)


TOOLBOX = '''\\_sh v3.0  400  Text
\\ref 1
\\t \u00e9ab  cd
\\m \u00e9a -b  cd
\\g  X  -Y  Z\u4e2d
\\p  n   n  v
\\f free \U0001f600

\\ref b
\\t x
\\m y
\\f !error
'''
ODIN = '''doc_id: %s
igt_id: igt1-1
line_range: 1 2
line_types: L G
language: \u00c9t\u00e9 (xyz)
iso-639-3: xyz
line=1 tag=L:\u4e2d \u00e9
line=2 tag=G:a \x01 \U0001f600

'''


def w_import(d):
    src = put(d, 'in.txt', TOOLBOX)
    cfg = put(d, 'c.json', json.dumps({'record_markers': ['\\ref'], 'tier_types': {
        'w': {'type': 'w\u00e9rter', 'interlinear': True}, 'm': {'type': 'morphemes',
                                                                 'interlinear': True}},
        'tier_map': {'\\t': 'w', '\\m': 'm'}, 'alignments': {'m': ['segmentation', 'w']},
        'make_phrase_tier': None}, ensure_ascii=False))
    yield 'a', command(d, 'import', ['-i', src, '-o', tail(os.path.join(d, 'o1.xml'))], True)
    yield 'b', command(d, 'import', ['-i', src, '-o', tail(os.path.join(d, 'o2.xml')),
                                     '-c', cfg], True)
    src = put(d, 'odin.txt', ODIN % 1)
    cfg = put(d, 'o.json', json.dumps({'replacement_char': '\u00bf', 'keep_headers': True},
                                      ensure_ascii=False))
    for n, a in ((3, []), (4, ['-c', cfg])):
        yield 'c', command(d, 'import', ['-f', 'odin', '-i', src, '-o', tail(os.path.join(
            d, 'o%d.xml' % n))] + a, True)
    ind = os.path.join(d, 'dir')
    os.mkdir(ind)
    for n in 'abc':
        put(ind, n + '.txt', ODIN % n + ODIN % 'x')
    yield 'd', command(d, 'import', ['-f', 'odin', '-i', tail(ind), '-o', tail(
        os.path.join(d, 'out'))], True)
    yield 'files', tree(d)


WORK = [w_xml, w_json, w_refs, w_query, w_partition, w_sort, w_validate, w_export, w_import]


def main():
    works = WORK
    if ORDER.startswith('alone:'):
        works = [w for w in WORK if w.__name__ == ORDER[6:]]
    elif ORDER == 'reverse':
        works = WORK[::-1]
    elif ORDER == 'twice':
        works = WORK + WORK
    out = {}
    for n, w in enumerate(works):
        d = os.path.join(TOP, 'working-directory-%d' % n)
        os.mkdir(d)
        res = []
        import warnings
        with warnings.catch_warnings():
            warnings.simplefilter('ignore')
            for label, x in w(d):
                res.append([label, show(x, d)])
        out[w.__name__] = res
    sys.__stdout__.write(json.dumps(out))


main()
