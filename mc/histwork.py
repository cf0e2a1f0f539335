"""Calls whose results may not depend on the calls made before (C33)."""
import copy
import io
import os
from mc import stubs
stubs.install()
from mc import cli, xmlref
from mc.dom import build, snap, corpus, igt, tier, item, metadata, meta, mc, full_igt, walk
from mc.fresh import Fresh
import xigt.main
from xigt import ref, query, xigtpath as xp
from xigt.codecs import xigtxml, xigtjson
from xigt.exporters import latex, itsdb, util
from xigt.importers import odin, toolbox
from xigt.scripts import (xigt_export, xigt_import, xigt_partition, xigt_query, xigt_sort,
                          xigt_validate)

A, B = 'http://ex.org/a', 'urn:b'


def doc(n):
    md = [metadata(meta(mc('l', ns=A if n else B, text='x', attrs={'{%s}k' % B: 'v'}), id='m1'))]
    return corpus(
        igt('g1', tier('p', item('p1', 'ab cd' if n else 'xy zw uv'), type='phrases'),
            tier('w', item('w1', attrs={'segmentation': 'p1[0:2]'}),
                 item('w2', attrs={'segmentation': 'p1[3:5]'}), type='words',
                 attrs={'segmentation': 'p'}),
            tier('g', item('x1', 'A', attrs={'alignment': 'w%d' % (1 + n)}),
                 item('x2', 'B', attrs={'alignment': 'w1,w2'}), type='glosses',
                 attrs={'alignment': 'w'}), attrs={'k': str(n), '{%s}k' % (A if n else B): 'q'},
            md=md),
        dict(full_igt('g2' if n else 'h2'), attrs={'k': '0'}), nsmap={'a': A, 'b': B} if n else {
            'a': B, 'c': A})


SPECS = [doc(0), doc(1), corpus(igt('g1', tier('w', item('w1', 'a', attrs={'alignment': 'w9'}))),
                                igt(None, tier('w', item('w1', 'b'))))]
XMLS = [xmlref.write(s) for s in SPECS]
EXPRS = ['a1', 'a1 b1', 'a1[0:1]', 'a1[0:1+2:3]', 'w1+w2,w1[1:2]', 'a1[0:1]+a1[1:2],b1', 'w1,w2',
         'a1+b1+c1', '', ' a1 ', 'w2[0:1]']
PATHS = ['igt', 'igt/tier', '//item', '//@k', '//@a:k', '//a:l', 'igt/tier[@type="words"]/item',
         '//item/referent()', '//item/value()', './/referrer()', '(igt/tier | //item)',
         'igt/metadata//text()', '//item/text()', 'igt[@k="1"]/@id', 'igt[tier', '//item/@*']
RELATIONS = 'item:\n  i-id :integer :key\n  i-input :string\n'


def show(x):
    if isinstance(x, BaseException):
        return [type(x).__name__, str(x)]
    if isinstance(x, (str, int, float, bool, bytes)) or x is None:
        return x
    if isinstance(x, dict):
        return [[show(k), show(v)] for k, v in x.items()]
    if hasattr(x, 'attributes') or hasattr(x, 'metas') or hasattr(x, 'children'):
        return repr(snap(x))
    if isinstance(x, (list, tuple)) or hasattr(x, '__next__'):
        return [show(y) for y in x]
    return str(x)


def edited(f):
    xc = build(SPECS[1])
    try:
        r = f(xc)
    except Exception as e:
        r = e
    return [r, [snap(g) for g in xc], [[[i.referrers(), i.value()] for i in t]
                                       for g in xc for t in g]]


T, I, G = xigt.Tier, xigt.Item, xigt.Igt
EDITS = [lambda f=f: edited(f) for f in (
    lambda xc: xc.append(G(id='n')), lambda xc: xc.append(G(id='g1')), lambda xc: xc.append(1),
    lambda xc: xc[0].append(T(id='n', items=[I(id='n1', segmentation='p1[0:1]')])),
    lambda xc: xc[0].remove(xc[0]['w']), lambda xc: xc[0]['w'].pop(0),
    lambda xc: xc[0].extend([T(id='a'), T(id='a')]), lambda xc: setattr(xc[0]['w'][0], 'id', 'z'),
    lambda xc: setattr(xc[0]['w'][0], 'id', '1'), lambda xc: xc.clear(),
    lambda xc: xc[0].sort(key=lambda t: t.id), lambda xc: xc[0].insert(0, T()),
    lambda xc: setattr(xc[0], 'metadata', []), lambda xc: xc[0].nsmap.update(q='u'),
    lambda xc: xc[0].attributes.update(k='new'), lambda xc: xc[0].get_attribute('k', namespace='a'),
    lambda xc: xc[0]['w'][0].span(0, 1), lambda xc: xc[0]['g'].get_attribute('alignment'),
    lambda xc: I(id='1'), lambda xc: I(segmentation='a', content='b'), lambda xc: T(), lambda xc: G(),
    lambda xc: xigt.XigtCorpus(), lambda xc: xigt.Metadata(), lambda xc: xigt.Meta(),
    lambda xc: xigt.MetaChild('a', attributes={'k': 'v'}, nsmap={'a': 'u'}))]


class Calls:
    """The catalogue: name -> function of the scratch directory and settings."""
    def __init__(self):
        self.all = []
        for e in EXPRS:
            for fn in (ref.expand, ref.compress, ref.ids):
                self.add('%s(%r)' % (fn.__name__, e), lambda w, fn=fn, e=e: fn(e))
            for fn in (ref.selections, ref.spans):
                for k in (True, False):
                    self.add('%s(%r, %s)' % (fn.__name__, e, k),
                             lambda w, fn=fn, e=e, k=k: fn(e, keep_delimiters=k))
        for n in (0, 1, 2):
            for p in PATHS:
                self.add('findall(doc%d, %s)' % (n, p),
                         lambda w, n=n, p=p: xp.findall(build(SPECS[n]), p))
            self.add('find(doc%d)' % n, lambda w, n=n: xp.find(build(SPECS[n]), '//item/@id'))
            for e in ('w1', 'w1+w2,w1[0:1]', 'w2'):
                self.add('resolve(doc%d, %s)' % (n, e),
                         lambda w, n=n, e=e: ref.resolve(build(SPECS[n])[0]['w'], e))
            for m in ('full', 'incremental', 'transient'):
                self.add('xml.loads(doc%d, %s)' % (n, m), lambda w, n=n, m=m: [
                    snap(g) for g in xigtxml.load(io.BytesIO(XMLS[n].encode() if isinstance(
                        XMLS[n], str) else XMLS[n]), mode=m)])
            for i in (None, 2):
                self.add('xml.dumps(doc%d, %r)' % (n, i),
                         lambda w, n=n, i=i: xigtxml.dumps(build(SPECS[n]), indent=i))
                self.add('json.dumps(doc%d, %r)' % (n, i),
                         lambda w, n=n, i=i: xigtjson.dumps(build(SPECS[n]), indent=i))
            self.add('json(doc%d)' % n, lambda w, n=n: snap(xigtjson.loads(xigtjson.dumps(
                build(SPECS[n])))))
            self.add('values(doc%d)' % n, lambda w, n=n: [
                i.value() for g in build(SPECS[n]) for t in g for i in t])
            self.add('referrers(doc%d)' % n, lambda w, n=n: [
                [i.referrers(), i.referents()] for g in build(SPECS[n]) for t in g for i in t])
            for fn, kw in ((query.ancestors, {}), (query.ancestors, {'refattrs': ['alignment']}),
                           (query.descendants, {}), (query.descendants, {'follow': 'all'})):
                self.add('%s(doc%d, %r)' % (fn.__name__, n, kw), lambda w, n=n, fn=fn, kw=kw: list(
                    fn(build(SPECS[n])[0]['w'][0], **kw)))
            for a in (None, ['alignment'], ['segmentation', 'alignment']):
                self.add('sort_tiers(doc%d, %r)' % (n, a), lambda w, n=n, a=a: self.sort(n, a))
            for c in ('latex', 'latex2', None):
                self.add('latex(doc%d, %s)' % (n, c), lambda w, n=n, c=c: list(
                    latex.export_corpus(build(SPECS[n]), latex.prepare_config(w.cfg(c)))))
            self.add('itsdb(doc%d)' % n, lambda w, n=n: list(itsdb.export_corpus(
                build(SPECS[n]), itsdb.prepare_config(w.cfg('itsdb')))))
            self.add('validate(doc%d)' % n, lambda w, n=n: w.run(
                xigt_validate.main, '-vv', w.path('%d.xml' % n)))
            self.add('sort(doc%d)' % n, lambda w, n=n: w.run(
                xigt_sort.main, '--igt-key=@k', '--item-key=@id', w.path('%d.xml' % n)))
            for a in (['-t', '//item', '@alignment'], ['-c', '//tier', '-d', 'tiers'],
                      ['-u', '//@type']):
                self.add('query(doc%d, %s)' % (n, a[0]), lambda w, n=n, a=a: w.run(
                    xigt_query.main, *(a + [w.path('%d.xml' % n)])))
            self.add('partition(doc%d)' % n, lambda w, n=n: w.run(
                xigt_partition.main, '--key-path=@k', w.path('out'), w.path('%d.xml' % n)))
        for bad in (b'', b'<a/>', b'<xigt-corpus><igt', b'<xigt-corpus><igt id="1"/></xigt-corpus>',
                    b'<xigt-corpus><igt id="a"/><igt id="a"/></xigt-corpus>',
                    b'<xigt-corpus xmlns:a="%s"><igt a:k="1"/></xigt-corpus>' % B.encode()):
            for m in ('full', 'transient'):
                self.add('xml.loads(%r, %s)' % (bad, m), lambda w, bad=bad, m=m: [
                    snap(g) for g in xigtxml.load(io.BytesIO(bad), mode=m)])
        for bad in ('', '[]', '{"igts": [{"id": "1"}]}', '{"igts": [{"id":"a"},{"id":"a"}]}',
                    '{"namespaces": {"a": "u"}, "igts": [{"attributes": {"a:k": "1"}}]}',
                    '{"igts": [{"attributes": {"a:k": "1"}}]}'):
            self.add('json.loads(%s)' % bad, lambda w, bad=bad: [
                snap(g) for g in xigtjson.loads(bad)])
        for k, f in enumerate(EDITS):
            self.add('edit %d' % k, lambda w, f=f: f())
        for a in (['gone.xml'], ['0.xml', '2.xml', 'in.txt', '1.xml']):
            self.add('validate(%s)' % a, lambda w, a=a: w.run(
                xigt_validate.main, '-v', *map(w.path, a)))
        self.add('partition fails', lambda w: w.run(
            xigt_partition.main, '--key-path=@k', w.path('out'), w.path('in.txt')))
        self.add('sort fails', lambda w: w.run(xigt_sort.main, '--igt-key=tier', w.path('0.xml')))
        self.add('query fails', lambda w: w.run(xigt_query.main, '-f', 'a/', w.path('0.xml')))
        self.add('main', lambda w: w.run(lambda a: xigt.main.main(), 'sort', '--igt-key=@id',
                                         w.path('1.xml')))
        self.add('export', lambda w: w.run(xigt_export.main, '-i', w.path('1.xml'), '-o',
                                           w.path('o.xml')))
        self.add('import', lambda w: w.run(xigt_import.main, '-f', 'odin', '-i',
                                           w.path('odin.txt'), '-o', w.path('o.xml')))
        for c in ('tbx', 'tbx2', None):
            self.add('toolbox(%s)' % c, lambda w, c=c: toolbox.xigt_import(
                w.path('in.txt'), w.path('o.xml'), w.cfg(c)))
        for c in ('odin', 'odin2', None):
            self.add('odin(%s)' % c, lambda w, c=c: odin.xigt_import(
                w.path('odin.txt'), w.path('o.xml'), w.cfg(c)))

    def add(self, name, fn):
        self.all.append((name, fn))

    @staticmethod
    def sort(n, a):
        g = build(SPECS[n])[0]
        g.sort_tiers(**({'refattrs': a} if a else {}))
        return [t.id for t in g]


CONFIGS = {'latex': {'tier_types': ['words', 'glosses']},
           'latex2': {'tier_types': ['glosses', 'phrases'], 'item_substitutions': [
               ['glosses', [['A', 'Z']]]]},
           'itsdb': {'relations': None, 'cells': [['i-input', 'igt.id']]},
           'tbx': {'record_markers': ['\\ref'], 'tier_map': {'\\t': 'w', '\\f': 't'}},
           'tbx2': {'make_phrase_tier': None, 'error_recovery_method': None},
           'odin': {'keep_headers': True}, 'odin2': {'replacement_char': 'R'}}
TOOLBOX = ('\\_sh v3.0  400  Text\n\\ref 1\n\\t ab  cd\n\\m a -b  cd\n\\g X -Y  Z\n\\f free\n\n'
           '\\ref x2\n\\t q\n\\f !warning\n')
ODIN = ('doc_id: 1\nigt_id: igt1-1\nline_range: 1 2\nline_types: L G\nlanguage: E (xyz)\n'
        'iso-639-3: xyz\nline=1 tag=L:a \x01b\nline=2 tag=G:c d\n\n')


class Work:
    """One process: a scratch directory, settings that live as long."""
    def __init__(self, d):
        self.d = d
        for n, s in [('%d.xml' % k, x) for k, x in enumerate(XMLS)] + [
                ('in.txt', TOOLBOX), ('odin.txt', ODIN), ('rel', RELATIONS)]:
            with open(self.path(n), 'wb') as fh:
                fh.write(s.encode() if isinstance(s, str) else s)
        self.fresh = Fresh()
        self.calls = Calls().all
        self.restart()

    def path(self, n):
        return os.path.join(self.d, n)

    def cfg(self, c):
        return self.configs.get(c)

    def restart(self):
        self.fresh.reset()
        self.configs = copy.deepcopy(CONFIGS)
        self.configs['itsdb']['relations'] = self.path('rel')

    def run(self, main, *args):
        r = cli.run(main, args)
        return [r.code, r.exc, r.out.replace(self.d, 'D')]

    def call(self, k):
        try:
            x = show(self.calls[k][1](self))
        except Exception as e:
            x = show(e)
        files = []
        out = self.path('out')
        for p in [self.path('o.xml')] + ([os.path.join(out, f) for f in sorted(os.listdir(out))]
                                         if os.path.isdir(out) else []):
            if os.path.exists(p):
                with open(p, 'rb') as fh:
                    files.append([os.path.basename(p), fh.read()])
                os.unlink(p)
        if os.path.isdir(out):
            os.rmdir(out)
        return [x, files]
