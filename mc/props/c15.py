"""C15: XigtJSON preserves the corpus."""
import itertools
import json
from mc import docs, xmlref, jsonref
from mc.core import Violation
from mc.dom import build, snap, diff, parent_links
from xigt.codecs import xigtjson

ID = 'C15'
LEVEL = 'exploration'
RULE = ('the document families of C14 (field combinations, nestings, forests of nested '
        'metadata, prefix declarations and shadowings, siblings, sizes, strings), extended by empty and '
        'blank texts, control characters, unbound namespaces and ids and types of nested '
        'metadata; each built, dumped, read by an independent reader of the JSON data and '
        're-loaded; and each written as JSON data by an independent writer in several '
        'layouts and loaded; distinct = distinct (document, layout)')
ASSUMPTIONS = ['prefix maps below the root extend the inherited ones']
STYLES = ['', 'p', 'n', 'pe', 'her', 'phr']
NB = 48


def fam(name, big):
    if name.startswith('fields.'):
        return docs.fields(name[7:], True)
    if name == 'struct':
        return docs.structures(big)
    if name.startswith('nested'):
        return docs.with_nested(int(name[6:]))
    if name == 'nscore':
        return docs.namespaces_core()
    if name == 'nsmd':
        return docs.namespaces_md(big)
    if name in ('siblings', 'wide'):
        return getattr(docs, name)()
    if name == 'text':
        return docs.texts(3 if big else 2, json=True)
    raise ValueError(name)


def cases(tier):
    fams = ['fields.' + k for k in docs.KINDS]
    fams += ['struct', 'nested1', 'nested2', 'nscore', 'nsmd', 'siblings', 'wide', 'text']
    if tier == 'thorough':
        fams += ['nested3']
    for f in fams:
        for b in range(NB):
            yield [f, b]
    for b in range(NB):
        yield ['raw', b]


def run(case, ctx):
    name, b = case
    if name == 'raw':
        return raw(b, ctx)
    for k, s in enumerate(fam(name, ctx.thorough)):
        if k % NB != b:
            continue
        roundtrip(s, [2, None] if k % 3 else [0, None], ctx)
        want = xmlref.expected(s, keep_empty=True)
        for st in STYLES:
            data = jsonref.write(s, st)
            if diff(want, jsonref.read(data)):
                raise AssertionError('reference writer and reader disagree: %s'
                                     % diff(want, jsonref.read(data)))
            got = snap(xigtjson.loads(json.dumps(data)))
            compare(want, got, 'loading (layout %r) gives' % st, data)
            ctx.ev(('rd', st, s))
        if k % (NB * 40) == b:
            ctx.sample(s)


DECLS = [None, {}, {'p': 'u1'}, {'p': 'u2', 'q': 'u1'}, {'q': 'p'}]
NAMES = ['x', 'p:x', 'q:x', 'r:x']
SPACES = [0, None, 'p', 'q', 'r', 'u1', '']
KEYS = [[], ['k'], ['p:k', 'k'], ['r:k', 'q:k'], ['{u1}k', '{p:u}k:k']]


def raw(b, ctx):
    """Data as others may write it: prefixes declared anywhere, shadowed or nowhere."""
    k = 0
    for d0, d1, d2 in itertools.product(DECLS, DECLS, DECLS[:4]):
        for name, ns, keys in itertools.product(NAMES, SPACES, KEYS):
            k += 1
            if k % NB != b:
                continue
            at = {x: 'v%d' % i for i, x in enumerate(keys)}
            mc = {'name': name, 'children': [{'name': name}, {'name': 'y'}], 'attributes': at}
            me, md, top = {'children': [mc]}, {'metas': None, 'attributes': at}, {}
            for o, d in ((top, d0), ([md, me][k % 2], d1), (mc, d2)):
                if d is not None:
                    o['namespaces'] = d
            for o in (mc, mc['children'][1]):
                if ns != 0:
                    o['namespace'] = ns
            md['metas'] = [me, {'attributes': at, 'text': 't'}]
            if k % 3:
                top.update(metadata=[md], attributes=at)
            else:
                it = {'id': 'i', 'text': 't', 'attributes': at}
                if k % 2 and d1 is not None:
                    it['namespaces'] = d1
                top['igts'] = [{'attributes': at, 'tiers': [
                    {'metadata': [md], 'items': [it], 'attributes': at}]}]
            doc = json.dumps(top)
            xc = xigtjson.loads(doc)
            compare(jsonref.read(top), snap(xc), 'loading gives', doc)
            if json.dumps(top) != doc:
                raise AssertionError('reader changes the data')
            ctx.ev(('raw', doc))
            ctx.out('raw')


def compare(want, got, what, doc):
    r = diff(want, got)
    if r:
        if not isinstance(doc, str):
            doc = json.dumps(doc)
        raise Violation('%s: %s (expected != found)\ndata: %s' % (what, r, doc[:1500]))


def roundtrip(s, indents, ctx):
    xc = build(s)
    before = snap(xc)
    want = xmlref.expected(s, keep_empty=True)
    for ind in indents:
        doc = xigtjson.dumps(xc, indent=ind)
        compare(want, jsonref.read(json.loads(doc)), 'dumps(indent=%r) wrote' % ind, doc)
        xc2 = xigtjson.loads(doc)
        compare(want, snap(xc2), 'loads(dumps(indent=%r)) gives' % ind, doc)
        if not (xc2 == xc):
            raise Violation('loads(dumps(x)) != x:\n' + doc)
        compare(want, jsonref.read(json.loads(xigtjson.dumps(xc2, indent=ind))),
                'dumps after loads wrote', doc)
    r = parent_links(xc2)
    if r:
        raise Violation('after loading: %s\n%s' % (r, doc))
    if diff(before, snap(xc)):
        raise Violation('dumps modifies the corpus: %s' % diff(before, snap(xc)))
    subobjects(xc, want, ctx)
    ctx.ev(('rt', s))


SUB = {'corpus': (xigtjson.encode, xigtjson.decode),
       'igt': (xigtjson.encode_igt, xigtjson.decode_igt),
       'tier': (xigtjson.encode_tier, xigtjson.decode_tier),
       'item': (xigtjson.encode_item, xigtjson.decode_item),
       'metadata': (xigtjson.encode_metadata, xigtjson.decode_metadata),
       'meta': (xigtjson.encode_meta, xigtjson.decode_meta),
       'mc': (xigtjson.encode_metachild, xigtjson.decode_metachild)}


def subobjects(xc, want, ctx):
    """The encoders of single objects give complete data, the decoders equal objects."""
    def go(o, w, depth):
        k = w['k']
        enc, dec = SUB[k]
        data = json.loads(json.dumps(enc(o)))
        what = 'encode_%s gives' % k
        compare(w, jsonref.read(data, k), what, data)
        copy = repr(data)
        o2 = dec(data)
        compare(w, snap(o2), 'decode_%s of what encode_%s gives is' % (k, k), data)
        if repr(data) != copy:
            raise Violation('decode_%s changes the data: %s' % (k, copy))
        if not (o2 == o) or o2 != o:
            raise Violation('decode_%s(encode_%s(x)) != x: %s' % (k, k, copy))
        ctx.ev(None, False)
        if depth < 7:
            for f, cs in (('md', getattr(o, 'metadata', [])),
                          ('kids', [] if k == 'item' else list(o))):
                for x, y in list(zip(cs, w.get(f, [])))[:2]:
                    go(x, y, depth + 1)
    go(xc, want, 0)
