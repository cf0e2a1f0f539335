"""C20: reading changes nothing, and objects share nothing."""
import io
import itertools
import json
import os
from mc import docs, xmlref
from mc.core import Violation, captured
from mc.dom import (build, snap, diff, parent, parent_links, walk, corpus, igt, tier, item,
                    metadata, meta, mc, full_igt, CLASS)
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt import ref, query, xigtpath as xp
from xigt.codecs import xigtxml, xigtjson

ID = 'C20'
LEVEL = 'exploration'
CASE_CPU = 60
CASE_CPU_THOROUGH = 300
IMPORTS = ('xigt', 'xigt.xigtpath', 'xigt.query', 'xigt.ref')
RULE = ('(a) all sequences of 2 (thorough 3) read operations out of ~75 covering the whole '
        'reading interface, on 3 corpora: contents, identities, parents and lookups '
        'unchanged, and the last result is the one a fresh equal corpus gives; (b) every '
        'operation on one corpus (reading, loading other, conflicting or broken documents, '
        'building, dumping, modifying) followed by every read operation on another; (c) '
        'modifying every returned list or dictionary leaves the object unchanged; results that are kept do not change when the corpus is modified in one of 6 '
        'ways; (d) every '
        'constructor argument of every class: modifying the argument, the object, or a '
        'second object made from the same or from default arguments affects only itself; '
        'distinct = distinct (corpus, operation sequence) or (class, argument, modification)')
ASSUMPTIONS = ['the attributes and the own nsmap of an object are its live dictionaries',
               'full mode (see C17 for lazily read corpora)']

A, B = 'http://ex.org/a', 'urn:b'


def specs():
    g = full_igt('g1')
    g['type'] = 'T'
    g['attrs'] = {'k': 'v', '{%s}k' % A: 'w'}
    g['md'] = [metadata(meta(mc('subject', mc('x', text='deep'), ns=A, text='J'),
                             type='lang', id='m1'), meta(text='note', type='n'),
                        type='xigt-meta', id='md1')]
    g['kids'].append(tier('o', item('o1', ''), item('o2', attrs={'alignment': 'm1[0:1],w1'}),
                          item(None, 'noid'), type='odd', attrs={'alignment': 'm',
                                                                 'content': 'w'}))
    yield corpus(g, igt(None, tier(None, item()), tier('q')), full_igt('g3'), id='c',
                 nsmap={'a': A}, md=[metadata(meta(text='cm', type='n'), type='xigt-meta')],
                 attrs={'k': 'ck', 'lang': 'x'})
    # unsorted, cyclic and dangling references; shadowed prefixes
    yield corpus(igt('i', tier('b', item('b1', attrs={'alignment': 'a1'}),
                               attrs={'alignment': 'a'}),
                     tier('a', item('a1', 'x', attrs={'alignment': 'b1'}),
                          item('a2', attrs={'segmentation': 'a1'}),
                          attrs={'alignment': 'b', 'segmentation': 'a'}),
                     tier('d', item('d1', attrs={'content': 'gone'}),
                          attrs={'content': 'nowhere'}), nsmap={'a': B, 'b': A},
                     ns=B), igt('j', nsmap={}, ns=A), nsmap={'a': A, 'b': B})
    yield corpus()


SPECS = list(specs())


class Exc(Exception):
    pass


def canon(v, index):
    """Comparable form of a result; objects become positions."""
    if isinstance(v, (XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild)):
        if id(v) in index:
            return ('obj', index[id(v)])
        return ('new', type(v).__name__)
    if v is None or isinstance(v, (str, bytes, int, bool)):
        return v
    if isinstance(v, dict):
        return ('dict', sorted((str(k), canon(x, index)) for k, x in v.items()))
    if isinstance(v, (list, tuple)) and type(v) in (list, tuple):
        return [canon(x, index) for x in v]
    if hasattr(v, '__iter__'):
        return [canon(x, index) for x in itertools.islice(v, 10000)]
    return ('other', type(v).__name__)


def each(fn, kinds):
    """fn applied to every object of the given kinds."""
    def op(xc):
        out = []
        for o in list(walk(xc)):
            if isinstance(o, kinds):
                try:
                    r = fn(o)
                    if hasattr(r, '__next__'):
                        r = list(r)
                except Exception as e:
                    r = type(e).__name__
                out.append(r)
        return out
    return op


ALL = (XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild)
CONT = (XigtCorpus, Igt, Tier, Metadata, Meta, MetaChild)
TI = (Tier, Item)
MDH = (XigtCorpus, Igt, Tier)
RA = ('alignment', 'segmentation', 'content')
PATHS = ['igt', '//tier', '//item', '//meta', 'igt/@id', '//item/text()', '//item/value()',
         '//tier[@type="words"]/item', '//item/referent()', '//tier/referrer()',
         'metadata//*', '//a:*', '//item/..', '(igt|metadata)/*', '//item[value()="ab"]',
         '//tier/@*', '//item/referrer("alignment")']


def _dump(mod, **kw):
    def op(xc):
        b = io.BytesIO()
        mod.dump(b, xc, **kw)
        return b.getvalue()
    return op


def readops():
    ops = [
        ('list', each(list, CONT)), ('len', each(len, CONT)), ('bool', each(bool, ALL)),
        ('repr', each(lambda o: repr(o)[:5], ALL)), ('str', each(lambda o: str(o)[:5], ALL)),
        ('reversed', each(lambda o: list(reversed(o)), CONT)),
        ('index', each(lambda o: [o[0], o[-1], o[0:1], o['0']], CONT)),
        ('get', each(lambda o: [o.get(k, 7) for k in
                                ('g1', 'w', 'w1', 'm1', 'a', 'a1', 0, 'x', '1', -9)], CONT)),
        ('in', each(lambda o: [x in o for x in o], CONT)),
        ('position', each(lambda o: [o.index(x) for x in o], CONT)),
        ('select id', each(lambda o: o.select(id='w'), CONT)),
        ('select type', each(lambda o: o.select(type='words'), CONT)),
        ('select ns', each(lambda o: o.select(namespace='a'), CONT)),
        ('eq', each(lambda o: (o == o, o != o, o == 3, o == None), ALL)),  # noqa: E711
        ('eq all', lambda xc: [a == b for a in list(walk(xc))[:40]
                               for b in list(walk(xc))[:40]]),
        ('copy', each(lambda o: list(o[:]), CONT)),
        ('sorted', each(lambda o: sorted(o, key=lambda x: str(x.id)), CONT)),
        ('fields', each(lambda o: [o.id, o.type, dict(o.attributes), o.namespace,
                                   dict(o.nsmap)], ALL)),
        ('get_attribute', each(lambda o: [o.get_attribute(k, 'd', inherit=i)
                                          for k in ('k', 'a:k', '{%s}k' % A, 'none')
                                          for i in (False, True)], ALL)),
        ('get_attribute ns', each(lambda o: [o.get_attribute('k', namespace=n, inherit=i)
                                             for n in ('a', A, 'b', None)
                                             for i in (False, True)], ALL)),
        ('metadata', each(lambda o: o.metadata, MDH)),
        ('get_meta', each(lambda o: [o.get_meta('n', inherit=i) for i in (True, False)], MDH)),
        ('get_meta cond', each(lambda o: o.get_meta('n', [lambda m: m.text == 'cm'], 5), MDH)),
        ('igts', each(lambda o: o.igts, XigtCorpus)), ('tiers', each(lambda o: o.tiers, Igt)),
        ('items', each(lambda o: o.items, Tier)),
        ('metas', each(lambda o: o.metas, Metadata)),
        ('md text', each(lambda o: o.text, Metadata)),
        ('children', each(lambda o: o.children, (Meta, MetaChild))),
        ('up', each(lambda o: [o.igt, o.corpus, getattr(o, 'tier', None)], TI)),
        ('up igt', each(lambda o: o.corpus, Igt)),
        ('get_item', each(lambda o: [o.get_item(k) for k in ('w1', 'm1', 'a1', 'x')], Igt)),
        ('get_any', each(lambda o: [o.get_any(k) for k in ('w1', 'w', 'a', 'x')], Igt)),
        ('value', each(lambda o: o.value(), Item)),
        ('value order', each(lambda o: o.value(['segmentation', 'content']), Item)),
        ('value none', each(lambda o: o.value(None), Item)),
        ('get_content', each(lambda o: o.get_content(), Item)),
        ('span', each(lambda o: o.span(0, 1), Item)),
        ('resolve_ref', each(lambda o: [o.resolve_ref(k) for k in RA if k in o.attributes],
                             Item)),
        ('refattrs', each(lambda o: [o.alignment, o.content, o.segmentation,
                                     o.allowed_reference_attributes()], TI)),
        ('referents', each(lambda o: o.referents(), TI)),
        ('referrers', each(lambda o: o.referrers(), TI)),
        ('referrers missing', each(lambda o: [o.referrers().get(k) for k in RA], TI)),
        ('referrers index', each(lambda o: [o.referrers()[k] for k in RA], TI)),
        ('referents ra', each(lambda o: o.referents(['alignment']), TI)),
        ('referrers ra', each(lambda o: o.referrers(['content', 'segmentation']), TI)),
        ('igt referrers', each(lambda o: [o.referrers(k) for k in ('w', 'w1', 'a', 'x')], Igt)),
        ('igt referents', each(lambda o: [o.referents(k) for k in ('w', 'w1', 'a', 'x')], Igt)),
        ('ref.resolve', each(lambda o: ref.resolve(o, 'w1[0:1],m1+p1 a1'), (Tier, Igt))),
        ('dereference', each(lambda o: [ref.dereference(o, k) for k in RA
                                        if k in o.attributes], TI)),
        ('dereference_all', each(lambda o: [ref.dereference_all(o, k) for k in RA
                                            if k in o.attributes], TI)),
        ('ancestors', each(lambda o: query.ancestors(o), TI)),
        ('ancestors ra', each(lambda o: query.ancestors(o, ['segmentation']), TI)),
        ('descendants', each(lambda o: query.descendants(o), TI)),
        ('descendants all', each(lambda o: query.descendants(o, follow='all'), TI)),
        ('xml', lambda xc: xigtxml.dumps(xc)), ('json', lambda xc: xigtjson.dumps(xc)),
        ('xml bytes', _dump(xigtxml)), ('json bytes', _dump(xigtjson)),
        ('xml flat', lambda xc: xigtxml.dumps(xc, indent=None)),
        ('xml loaded', lambda xc: [snap(xigtxml.loads(xigtxml.dumps(xc)))]),
        ('json loaded', lambda xc: [snap(xigtjson.loads(xigtjson.dumps(xc)))]),
        ('encoders', lambda xc: [f(o) for k, f in (
            (Igt, xigtxml.encode_igt), (Tier, xigtxml.encode_tier),
            (Item, xigtxml.encode_item), (Metadata, xigtxml.encode_metadata),
            (Meta, xigtxml.encode_meta)) for o in walk(xc) if type(o) is k]),
        ('json encode', lambda xc: xigtjson.encode(xc)),
    ]
    for p in PATHS:
        ops.append(('path ' + p, each(lambda o, p=p: xp.findall(o, p), ALL)))
    ops.append(('find', each(lambda o: [xp.find(o, p) for p in PATHS], ALL)))
    return ops


READ = readops()


def foreign():
    """Operations that concern other objects."""
    doc = '<xigt-corpus xmlns:a="%s" xmlns="%s" a:k="1"><igt id="i"/></xigt-corpus>' % (B, A)
    js = json.dumps({'namespaces': {'a': B, 'b': A}, 'attributes': {'a:k': 'x'},
                     'igts': [{'id': 'g', 'namespace': 'a', 'tiers': [
                         {'id': 't', 'attributes': {'b:x': '1'}, 'items': [{'id': 'z'}]}]}]})

    def broken(t, fn):
        def op():
            try:
                fn(t)
            except Exception:
                pass
        return op

    def transient():
        it = iter(xigtxml.load(io.BytesIO(xmlref.write(SPECS[0]).encode()), mode='transient'))
        next(it)

    def modify():
        for s in SPECS:
            xc = build(s)
            for o in list(walk(xc)):
                o.attributes['k'] = 'changed'
                o.nsmap = {'a': 'urn:changed'}
                if isinstance(o, Igt):
                    o.sort_tiers()
                    o.append(Tier(id='zzz'))
                    o.refresh_indices()
            for o in list(walk(xc)):
                if isinstance(o, MDH):
                    o.metadata = [Metadata(metas=[Meta(text='z')])]
                if hasattr(o, 'clear') and not isinstance(o, XigtCorpus):
                    o.clear()

    def defaults():
        for c in (XigtCorpus, Igt, Tier, Item, Metadata, Meta):
            o = c()
            o.attributes['k'] = 'x'
            if c is not Item:
                o.append({XigtCorpus: Igt, Igt: Tier, Tier: Item, Metadata: Meta,
                          Meta: lambda: MetaChild('c')}[c]())

    return [('load ns', lambda: xigtxml.loads(doc)), ('load json ns', lambda: xigtjson.loads(js)),
            ('broken xml', broken('<xigt-corpus xmlns:a="%s"><igt><tier' % B, xigtxml.loads)),
            ('broken json', broken('{"namespaces": {"a": "%s"}, "igts": [{"namespace": "q",'
                                   ' "tiers": 5}]}' % B, xigtjson.loads)),
            ('bad id json', broken('{"namespaces": {"a": "%s"}, "igts": [{"id": "1"}]}' % B,
                                   xigtjson.loads)),
            ('dump bad', broken(None, xigtxml.dumps)), ('dump bad json',
                                                        broken(5, xigtjson.dumps)),
            ('dump unserialisable', broken(XigtCorpus(attributes={'a': object()}),
                                           xigtxml.dumps)),
            ('json unserialisable', broken(XigtCorpus(nsmap={'a': B}, attributes={
                '{%s}k' % B: object()}), xigtjson.dumps)),
            ('transient', transient), ('modify', modify), ('defaults', defaults),
            ('dump other', lambda: [f(build(s)) for s in SPECS
                                    for f in (xigtxml.dumps, xigtjson.dumps)]),
            ('paths', lambda: [each(lambda o: xp.findall(o, p), ALL)(build(s))
                               for s in SPECS[:2] for p in PATHS]),
            ('bad path', broken(XigtCorpus(igts=[Igt()]), lambda c: xp.findall(c, 'igt[@'))),
            ('half path', lambda: next(xp.iterfind(build(SPECS[0]), '//item'))),
            ('half query', lambda: next(query.descendants(build(SPECS[0])[0]['p'])))]


FOREIGN = foreign()


def cases(tier):
    for s in range(len(SPECS)):
        for i in range(len(READ)):
            yield ['seq', s, i]
    for i in range(len(FOREIGN)):
        yield ['foreign', i]
    for s in range(len(SPECS)):
        for i in range(len(READ)):
            yield ['results', s, i]
    for s in range(len(SPECS)):
        for i in range(len(READ)):
            for w in range(len(WRECK)):
                yield ['kept', s, i, w]
    for k in CLASS:
        yield ['args', k]
    yield ['codec args']


def state(xc):
    objs = list(walk(xc))
    return (snap(xc), [id(o) for o in objs],
            [id(parent(o)) for o in objs],
            [[id(o.get(x.id)) for x in o if x.id is not None] for o in objs if isinstance(o, CONT)],
            [[id(o.get_item(k)) for k in ('w1', 'm1', 'a1', 'x')] for o in objs
             if isinstance(o, Igt)])


def fresh(s):
    xc = build(SPECS[s])
    return xc, {id(o): n for n, o in enumerate(walk(xc))}


_alone = {}


def alone(s, i):
    if (s, i) not in _alone:
        xc, index = fresh(s)
        _alone[s, i] = canon(call(READ[i][1], xc), index)
    return _alone[s, i]


def call(op, *a):
    try:
        r = op(*a)
        return list(r) if hasattr(r, '__next__') else r
    except Exception as e:
        return 'raises ' + type(e).__name__


def run(case, ctx):
    with captured():
        globals()['run_' + case[0].replace(' ', '_')](ctx, *case[1:])


def check(before, xc, what):
    after = state(xc)
    for a, b, n in zip(before, after, ('contents', 'members', 'parents', 'lookups',
                                       'item lookups')):
        if a != b:
            raise Violation('%s changes %s: %s' % (what, n, diff(a, b)
                                                   if n == 'contents' else 'identities'))


def run_seq(ctx, s, i):
    xc, index = fresh(s)
    before = state(xc)
    first = canon(call(READ[i][1], xc), index)
    check(before, xc, READ[i][0])
    if first != alone(s, i):
        raise Violation('%s: a fresh corpus gives %s, then %s'
                        % (READ[i][0], str(alone(s, i))[:300], str(first)[:300]))
    for j in range(len(READ)):
        xc, index = fresh(s)
        before = state(xc)
        call(READ[i][1], xc)
        got = canon(call(READ[j][1], xc), index)
        want = alone(s, j)
        if got != want:
            raise Violation('%s after %s: %s, but %s on a fresh corpus' % (
                READ[j][0], READ[i][0], str(got)[:400], str(want)[:400]))
        check(before, xc, '%s after %s' % (READ[j][0], READ[i][0]))
        ctx.ev((s, i, j))
        ctx.out('two reads')
        if not ctx.thorough:
            continue
        for k in range(len(READ)):
            got = canon(call(READ[k][1], xc), index)
            if got != alone(s, k):
                raise Violation('%s after %s, %s, ...: %s, but %s on a fresh corpus' % (
                    READ[k][0], READ[i][0], READ[j][0], str(got)[:400],
                    str(alone(s, k))[:400]))
            ctx.ev((s, i, j, k))
        check(before, xc, 'all reads after %s, %s' % (READ[i][0], READ[j][0]))
    ctx.sample([READ[i][0], READ[j][0]])


def run_foreign(ctx, i):
    for s in range(len(SPECS)):
        for j in range(len(READ)):
            want = alone(s, j)
        xc, index = fresh(s)
        before = state(xc)
        for n in range(2):
            FOREIGN[i][1]()
            check(before, xc, FOREIGN[i][0] + ' (elsewhere)')
            for j in range(len(READ)):
                if not ctx.thorough and n and j % 3:
                    continue
                FOREIGN[i][1]() if ctx.thorough else None
                got = canon(call(READ[j][1], xc), index)
                want = alone(s, j)
                if got != want:
                    raise Violation('%s after %s on other objects: %s instead of %s' % (
                        READ[j][0], FOREIGN[i][0], str(got)[:400], str(want)[:400]))
                ctx.ev(('f', i, s, j, n))
            xc, index = fresh(s)        # made after the foreign operation
            before = state(xc)
        ctx.out('after foreign operation')


def spoil(v, depth=0):
    """Modify a returned plain list or dict in place, deeply."""
    if type(v) is list:
        for x in v:
            spoil(x)
        del v[:]
        v.append('spoilt')
    elif isinstance(v, dict):
        for x in list(v.values()):
            spoil(x)
        v.clear()
        v['spoilt'] = ['spoilt']
    elif type(v) is tuple:
        for x in v:
            spoil(x)


PLAIN = {'igts': XigtCorpus, 'tiers': Igt, 'items': Tier, 'metas': Metadata,
         'md text': Metadata, 'children': (Meta, MetaChild)}


def frozen(v, depth=0):
    """A result as it is now: plain lists, tuples and dicts by content, objects by
    identity."""
    if type(v) in (list, tuple):
        return (type(v).__name__, [frozen(x) for x in v])
    if isinstance(v, dict):
        return ('dict', [(k, frozen(x)) for k, x in v.items()])
    if v is None or isinstance(v, (str, bytes, int, bool)):
        return v
    return id(v)


def _each(xc, kinds, fn):
    for o in list(walk(xc)):
        if isinstance(o, kinds):
            fn(o)


WRECK = [('removing members', lambda xc: _each(xc, CONT, lambda o: len(o) and o.pop())),
         ('reversing members', lambda xc: _each(xc, CONT, lambda o: o.reverse())),
         ('clearing', lambda xc: _each(xc, CONT, lambda o: o.clear())),
         ('adding members', lambda xc: _each(xc, CONT, lambda o: o.append(
             {XigtCorpus: Igt, Igt: Tier, Tier: Item, Metadata: Meta}[type(o)](id='zzz')
             if type(o) not in (Meta, MetaChild) else MetaChild('zzz')))),
         ('changing references and refreshing', lambda xc: (
             _each(xc, TI, lambda o: o.attributes.update(alignment='zzz', segmentation='w')),
             _each(xc, Igt, lambda o: o.refresh_indices()))),
         ('clearing references and refreshing', lambda xc: (
             _each(xc, TI, lambda o: o.attributes.clear()),
             _each(xc, Igt, lambda o: o.refresh_indices())))]


def run_kept(ctx, s, i, w):
    name, op = READ[i]
    xc, index = fresh(s)
    r = call(op, xc)
    if name in PLAIN:
        for o, l in zip([o for o in walk(xc) if isinstance(o, PLAIN[name])], r):
            if type(l) is not list or [id(x) for x in l] != [id(x) for x in o]:
                raise Violation('%s of %r is not a list of its members: %r' % (name, o, l))
    before = frozen(r)
    WRECK[w][1](xc)
    if frozen(r) != before:
        raise Violation('the result of %s changes by %s afterwards' % (name, WRECK[w][0]))
    ctx.ev(('k', s, i, w))
    ctx.out('results kept')


def run_results(ctx, s, i):
    for name, op in [READ[i]]:
        xc, index = fresh(s)
        before = state(xc)
        spoil(call(op, xc))
        check(before, xc, 'modifying the result of ' + name)
        for j in range(len(READ)):
            if j % 4 != i % 4 and not ctx.thorough:
                continue
            got = canon(call(READ[j][1], xc), index)
            if got != alone(s, j):
                raise Violation('%s after modifying the result of %s: %s instead of %s' % (
                    READ[j][0], name, str(got)[:300], str(alone(s, j))[:300]))
            ctx.ev(('r', s, i, j))
        check(before, xc, 'reading')
    ctx.out('results modified')


def args_for(k):
    """name -> fresh argument, way of modifying it"""
    kid = {'corpus': lambda: Igt(id='k1'), 'igt': lambda: Tier(id='k1'),
           'tier': lambda: Item(id='k1'), 'metadata': lambda: Meta(id='k1'),
           'meta': lambda: MetaChild('k1'), 'mc': lambda: MetaChild('k1')}.get(k)
    out = {'attributes': (lambda: {'a': '1'}, lambda d: d.update(b='2')),
           'nsmap': (lambda: {'a': A}, lambda d: d.update(a=B, c='x'))}
    if kid:
        out[{'corpus': 'igts', 'igt': 'tiers', 'tier': 'items', 'metadata': 'metas',
             'meta': 'children', 'mc': 'children'}[k]] = (
            lambda: [kid()], lambda l: l.append('junk'))
    if k in ('corpus', 'igt', 'tier'):
        out['metadata'] = (lambda: [Metadata(id='md')], lambda l: l.append('junk'))
    return out, kid


def mods(k, kid):
    """Ways of modifying an object in place."""
    yield 'attributes', lambda o: o.attributes.update(z='9')
    yield 'del attributes', lambda o: o.attributes.clear()
    yield 'nsmap', lambda o: o.nsmap.update(z='urn:z')
    yield 'type', lambda o: setattr(o, 'type', 'zz')
    yield 'id', lambda o: setattr(o, 'id', 'zz')
    yield 'namespace', lambda o: setattr(o, 'namespace', 'zz')
    if k in ('item', 'tier'):
        yield 'alignment', lambda o: setattr(o, 'alignment', 'q')
    if kid:
        def new():
            x = kid()
            x.id = 'zz9'
            return x
        yield 'append', lambda o: o.append(new())
        yield 'clear', lambda o: o.clear()
    if k in ('corpus', 'igt', 'tier'):
        yield 'metadata', lambda o: o.metadata.append(Metadata(id='zz'))
        yield 'no metadata', lambda o: setattr(o, 'metadata', [])


def plain(v):
    if isinstance(v, dict):
        return sorted(v.items())
    return [(type(x).__name__, getattr(x, 'id', None)) for x in v]


def run_args(ctx, k):
    spec, kid = args_for(k)
    cls = CLASS[k]
    pos = ['name1'] if k == 'mc' else []
    names = sorted(spec)
    for r in range(len(names) + 1):
        for sel in itertools.combinations(names, r):
            def make():
                kw = {n: spec[n][0]() for n in sel}
                return kw, cls(*pos, **kw)
            for n in sel:
                kw, o = make()
                want = snap(o)
                spec[n][1](kw[n])
                if diff(want, snap(o)):
                    raise Violation('%s changes when the %s argument is modified later: %s'
                                    % (k, n, diff(want, snap(o))))
                kw, o = make()
                want = plain(kw[n])
                for mname, mod in mods(k, kid):
                    kw, o = make()
                    mod(o)
                    if plain(kw[n]) != want:
                        raise Violation('%s: modifying %s of the object changes the %s '
                                        'argument' % (k, mname, n))
                    ctx.ev((k, sel, n, mname))
            for mname, mod in mods(k, kid):
                # plain data arguments may be used for several objects
                kw = {n: spec[n][0]() for n in sel}
                o1 = cls(*pos, **kw)
                kw2 = {n: (kw[n] if n in ('attributes', 'nsmap') else spec[n][0]())
                       for n in sel}
                o2 = cls(*pos, **kw2)
                want = snap(o2)
                mod(o1)
                if diff(want, snap(o2)):
                    raise Violation('%s: modifying %s changes another object made from the '
                                    'same (or default) arguments: %s'
                                    % (k, mname, diff(want, snap(o2))))
                o3 = cls(*pos, **{n: spec[n][0]() for n in sel})
                if diff(want, snap(o3)):
                    raise Violation('%s: modifying %s of an object changes objects made '
                                    'later: %s' % (k, mname, diff(want, snap(o3))))
                ctx.ev((k, sel, mname, 'shared'))
            # assigned later
            for n in sel:
                kw, o = make()
                if n != 'attributes':
                    v = spec[n][0]()
                    setattr(o, n, v)
                    want = snap(o)
                    spec[n][1](v)
                    if diff(want, snap(o)):
                        raise Violation('%s changes when the value assigned to %s is '
                                        'modified later' % (k, n))
                    ctx.ev((k, sel, n, 'assigned'))
    ctx.out('arguments')


def run_codec_args(ctx):
    for s in SPECS + list(docs.with_nested(1)):
        xc = build(s)
        data = xigtjson.encode(xc)
        text = json.dumps(data)
        got = xigtjson.decode(data)
        want = snap(got)
        if json.dumps(data) != text:
            raise Violation('xigtjson.decode changes its argument')
        spoil(data)
        if diff(want, snap(got)):
            raise Violation('the decoded corpus changes when the decoded data is modified: '
                            + diff(want, snap(got)))
        data = json.loads(text)
        got, second = xigtjson.decode(data), xigtjson.decode(data)
        for o in list(walk(got)):
            o.attributes['zz'] = '1'
            if getattr(o, '_nsmap', None) is not None:
                o.nsmap['zz'] = 'urn:z'
            o.type = 'zz'
        if data != json.loads(text):
            raise Violation('modifying a decoded corpus changes the decoded data')
        if diff(want, snap(second)):
            raise Violation('two corpora decoded from the same data share state')
        data = xigtjson.encode(xc)
        want = snap(xc)
        spoil(data)
        if diff(want, snap(xc)):
            raise Violation('modifying the encoded data changes the corpus')
        t = xigtxml.dumps(xc)
        x1, x2 = xigtxml.loads(t), xigtxml.loads(t)
        want = snap(x2)
        for o in list(walk(x1)):
            o.attributes['zz'] = '1'
            if getattr(o, '_nsmap', None) is not None:
                o.nsmap['zz'] = 'urn:z'
            o.type = 'zz'
        if diff(want, snap(x2)) or diff(want, snap(xigtxml.loads(t))):
            raise Violation('two corpora loaded from the same XML share state')
        # elements of one document do not share dictionaries
        for load, t in ((xigtxml.loads, t), (xigtjson.loads, text)):
            x1 = load(t)
            objs = list(walk(x1))
            ids = {}
            for o in objs:
                for d in (o.attributes, getattr(o, '_nsmap', None)):
                    if d is not None:
                        if id(d) in ids:
                            raise Violation('two loaded objects share a dictionary')
                        ids[id(d)] = o
        ctx.ev(('codec', s))
    # list arguments of functions
    for fn in (lambda l: build(SPECS[0])[0].sort_tiers(l),
               lambda l: build(SPECS[0])[0]['w'].referrers(l),
               lambda l: build(SPECS[0])[0]['w'].referents(l),
               lambda l: build(SPECS[0])[0]['w']['w1'].value(l),
               lambda l: list(query.ancestors(build(SPECS[0])[0]['g'], l)),
               lambda l: list(query.descendants(build(SPECS[0])[0]['p'], l)),
               lambda l: list(query.descendants(build(SPECS[0])[0]['p'], l, follow='all'))):
        for perm in itertools.permutations(RA):
            l = list(perm)
            fn(l)
            if l != list(perm):
                raise Violation('a function changes its refattrs argument')
            ctx.ev(('refattrs', perm))
    ctx.out('codec data')
