"""C14: XigtXML preserves the corpus."""
import io
import itertools
import os
from mc import docs, xmlref
from mc.core import Violation
from mc.dom import build, snap, diff, parent_links
from xigt.codecs import xigtxml

ID = 'C14'
LEVEL = 'exploration'
RULE = ('complete enumeration of: every combination of field values (id, type, attributes '
        'incl. namespaced, text, namespace) on each kind of object; all nestings of igts, '
        'tiers, items and metadata; all forests of nested metadata elements incl. '
        'confusing names; all chains of prefix declarations and shadowings x namespaces '
        'used, and of three siblings with any declarations below no, one or ten, and of undeclared well-known namespaces where '
        'their prefixes mean others; 4 to '
        '130 members, metadata, levels, attributes and prefixes; texts around every buffer '
        'size; all strings over 14 characters up to length 2 (thorough 3) in every text '
        'and attribute position; each built, dumped, read by an independent expat reader, '
        'and re-loaded; and each written by an independent writer in several layouts and '
        'loaded; distinct = distinct (document, layout)')
ASSUMPTIONS = [
    'XML cannot tell an empty item text from no text, and text of only XML whitespace in metas and meta '
    'children counts as none; carriage returns and characters XML forbids are excluded',
    'namespaces in use are bound to a prefix (or are the default namespace), prefix maps '
    'below the root extend the inherited ones (XML cannot undeclare a prefix)',
    'ids of meta children are plain attributes']
STYLES = ['', 'i', 'ic', 'q', 'iq', 'h', 'x', 'n', 'd', 'e', 'ie', 'f', 'iz', 'xicqhf']
WELLKNOWN = (docs.DC, 'http://www.w3.org/2001/XMLSchema-instance')
NB = 48


def fam(name, tier):
    big = tier == 'thorough'
    if name.startswith('fields.'):
        return docs.fields(name[7:])
    if name == 'struct':
        return docs.structures(big)
    if name.startswith('nested'):
        return docs.with_nested(int(name[6:]))
    if name == 'nscore':
        return docs.namespaces_core()
    if name == 'nsmd':
        return docs.namespaces_md(big)
    if name in ('siblings', 'wide', 'clashes'):
        return getattr(docs, name)()
    if name == 'text':
        return docs.texts(3 if big else 2)
    raise ValueError(name)


def cases(tier):
    fams = ['fields.' + k for k in docs.KINDS]
    fams += ['struct', 'nested1', 'nested2', 'nscore', 'nsmd', 'siblings', 'wide', 'text',
             'clashes']
    if tier == 'thorough':
        fams += ['nested3']
    for f in fams:
        for b in range(NB):
            yield [f, b]


def run(case, ctx):
    name, b = case
    for k, s in enumerate(fam(name, ctx.tier)):
        if k % NB != b:
            continue
        if name.startswith('nested'):
            styles, indents = ['', 'ic'], [2]
        elif name.startswith('fields') or name == 'text':
            styles, indents = STYLES, [2, 0, 1, None]
        elif name == 'clashes':
            styles, indents = [], [2]
        elif name == 'struct':
            styles, indents = ['i', 'icf'], [2, None]
        else:
            styles, indents = ['', 'h', 'iq'], [2, None]
        if not ctx.thorough and name in ('nscore', 'nsmd'):
            indents = [2]
            styles = ['', 'h'] if k % 2 else ['', 'iq']
        roundtrip(s, indents, ctx)
        reading(s, styles, ctx)
        if k % (NB * 40) == b:
            ctx.sample(s)


def compare(want, got, what, doc):
    xmlref.nsdiff(want, got, WELLKNOWN)
    r = diff(want, got)
    if r:
        raise Violation('%s: %s (expected != found)\ndocument:\n%s' % (what, r, doc[:1500]))


def roundtrip(s, indents, ctx):
    xc = build(s)
    before = snap(xc)
    want = xmlref.expected(s)
    for ind in indents:
        doc = xigtxml.dumps(xc, indent=ind)
        compare(want, xmlref.read(doc), 'dumps(indent=%r) wrote' % (ind,), doc)
        xc2 = xigtxml.loads(doc)
        compare(want, snap(xc2), 'loads(dumps(indent=%r)) gives' % (ind,), doc)
        doc2 = xigtxml.dumps(xc2, indent=ind)
        compare(want, xmlref.read(doc2), 'dumps after loads wrote', doc2)
        if ind is None and '\n' not in repr(want) and '\\n' not in repr(want) \
                and '\n' in doc:
            raise Violation('dumps(indent=None) adds newlines:\n' + doc[:800])
        if ind == 2:
            if not (xigtxml.loads(doc2) == xc2):
                raise Violation('a reloaded corpus differs from the loaded one:\n' + doc)
            r = parent_links(xc2)
            if r:
                raise Violation('after loading: %s\n%s' % (r, doc))
    if diff(before, snap(xc)):
        raise Violation('dumps modifies the corpus: %s' % diff(before, snap(xc)))
    subobjects(xc, s, want, ctx)
    ctx.ev(('rt', s))


ENC = {'igt': xigtxml.encode_igt, 'tier': xigtxml.encode_tier,
       'item': xigtxml.encode_item, 'metadata': xigtxml.encode_metadata,
       'meta': xigtxml.encode_meta, 'mc': xigtxml.encode_metachild}


def subobjects(xc, s, want, ctx):
    """The encoders of single objects write complete fragments."""
    def go(o, w, depth):
        k = w['k']
        if k in ENC and depth < 7:
            for ind in (2, None):
                frag = ENC[k](o, indent=ind)
                compare(w, xmlref.read(frag, k if k == 'mc' else None), 'encode_%s wrote' % k, frag)
                if ind is None and '\n' in frag and '\n' not in repr(w) \
                        and '\\n' not in repr(w):
                    raise Violation('encode_%s(indent=None) adds newlines: %r' % (k, frag))
                ctx.ev(None, False)
            if ENC[k](o) != ENC[k](o, indent=2):
                raise Violation('encode_%s: the default indent is not 2' % k)
        for f, cs in (('md', getattr(o, 'metadata', [])),
                      ('kids', [] if k == 'item' else list(o))):
            for o2, w2 in list(zip(cs, w.get(f, [])))[:2]:
                go(o2, w2, depth + 1)
    go(xc, want, 0)


def reading(s, styles, ctx):
    want = xmlref.expected(s)
    for st in styles:
        doc = xmlref.write(s, st)
        got = snap(xigtxml.loads(doc))
        compare(want, got, 'loading (layout %r) gives' % st, doc)
        ctx.ev(('rd', st, s))
