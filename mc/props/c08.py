"""C08: the value of an item, through reference chains, always current."""
import itertools
from mc.core import Violation, catch
from mc import algn
from xigt import Igt, Tier, Item, XigtCorpus
from xigt.errors import XigtStructureError

ID = 'C08'
LEVEL = 'model_checking'
RULE = ('(a) every combination of text / content / segmentation / alignment settings on '
        'an item, its tier and the tiers referred to, for every order of preference; '
        'chains of up to 100 tiers; (b) every history of edits up to a depth over a three-tier chain '
        '(texts, references, tiers\' reference attributes, replacement, removal, '
        're-ordering), the values of all items compared after every step with an '
        'evaluation of the description; distinct = distinct configuration or history')
ASSUMPTIONS = ['reference chains are acyclic']
BOUNDS = {'quick': 'histories of 3 edits over 35 edits',
          'thorough': 'histories of 4 edits over 35 edits'}

A, C, G = 'alignment', 'content', 'segmentation'


# ---------------------------------------------------------------- reference
class M:
    """Description: tiers {tid: {'attrs': {ra: tid}, 'items': {iid: item}}};
    item = {'text': str|None, 'refs': {ra: expression tree}}."""


def value(tiers, tid, iid, prefer=(C, G)):
    t = tiers[tid]
    it = t['items'][iid]
    if it['text'] is not None:
        return it['text']
    for ra in prefer or ():
        if ra in it['refs']:
            return deref(tiers, tid, iid, ra)
    return None


class Broken(Exception):
    pass


def deref(tiers, tid, iid, ra):
    t = tiers[tid]
    it = t['items'][iid]
    if ra not in t['attrs'] or t['attrs'][ra] not in tiers:
        raise Broken
    tgt = t['attrs'][ra]
    vals = {}
    for _, i, _ in it['refs'][ra]:
        if i not in tiers[tgt]['items']:
            raise Broken
        vals[i] = value(tiers, tgt, i)
    return algn.resolve(it['refs'][ra], vals)


# ---------------------------------------------------------------- (a) configs
P1 = [(None, 'p1', [(None, 0, 2)])]
P2 = [(None, 'p1', [(None, 3, 5)]), (',', 'p2', None)]
Q1 = [(None, 'q1', None)]
QX = [(None, 'q1', None), ('+', 'gone', None)]
REFS = [None, P1, P2, Q1, QX, []]
TREF = [None, 'p', 'q', 'nowhere', 'e']
PREFER = [(C, G), (G, C), (A,), (C,), (G,), (A, C, G), (), None, 'default', (G, A, C)]


def cases(tier):
    for text in (None, '', 'tx'):
        for r in itertools.product(range(len(REFS)), repeat=3):
            yield ['conf', text, list(r)]
    yield ['free']
    yield ['span']
    for n in CHAIN:
        yield ['chain', n]
    yield ['members']
    for n, op in enumerate(OPS):
        for m in range(len(OPS)):
            yield ['hist', [n, m], 2 if tier == 'thorough' else 1]


def make(tiers, order, corpus=False):
    """Real IGT from the description; order: tier ids."""
    out = []
    for tid in order:
        t = tiers[tid]
        out.append(Tier(id=tid, attributes=dict(t['attrs']), items=[
            Item(id=i, text=x['text'],
                 attributes={ra: algn.text(e) for ra, e in x['refs'].items()})
            for i, x in t['items'].items()]))
    g = Igt(id='g', tiers=out)
    if corpus:
        XigtCorpus(igts=[g])
    return g


def pq():
    return {'p': {'attrs': {}, 'items': {
                'p1': {'text': 'ab cd', 'refs': {}}, 'p2': {'text': '', 'refs': {}}}},
            'q': {'attrs': {C: 'p', G: 'p'}, 'items': {
                'q1': {'text': None, 'refs': {G: P2}},
                'q2': {'text': None, 'refs': {}}}},
            'e': {'attrs': {}, 'items': {}}}


def agree(what, fn, want):
    st, got = catch(fn)
    if want is Broken:
        if st == 'ok':
            raise Violation('%s: gives %r, the reference is broken' % (what, got))
        return 'broken'
    if st == 'err':
        raise Violation('%s: raised %r, expected %r' % (what, got, want))
    if got != want or type(got) is not type(want):
        raise Violation('%s: %r, expected %r' % (what, got, want))
    return 'none' if want is None else 'text' if want else 'empty'


def val_or_broken(f, *a):
    try:
        return f(*a)
    except Broken:
        return Broken


def run(case, ctx):
    kind = case[0]
    if kind == 'conf':
        return conf(case, ctx)
    if kind == 'free':
        return free(ctx)
    if kind == 'members':
        return members(ctx)
    if kind == 'chain':
        return chain(case[1], ctx)
    if kind == 'span':
        return span(ctx)
    return hist(case, ctx)


def conf(case, ctx):
    _, text, r = case
    refs = {ra: REFS[i] for ra, i in zip((A, C, G), r) if REFS[i] is not None}
    for tr in itertools.product(TREF, repeat=3):
        if sum(1 for a, b in zip(tr, r) if a is not None and REFS[b] is None) > 1:
            continue
        attrs = {ra: t for ra, t in zip((A, C, G), tr) if t is not None}
        tiers = pq()
        tiers['x'] = {'attrs': attrs, 'items': {'x1': {'text': text, 'refs': refs}}}
        for order in (('p', 'e', 'q', 'x'), ('x', 'q', 'p', 'e')):
            g = make(tiers, order)
            it = g['x']['x1']
            for pref in PREFER:
                p = (C, G) if pref == 'default' else pref
                want = val_or_broken(value, tiers, 'x', 'x1', p)
                what = 'value of %r with %r (preference %r)' % (
                    {'text': text, 'refs': {k: algn.text(e) for k, e in refs.items()}},
                    attrs, pref)
                lab = agree(what, (lambda: it.value()) if pref == 'default' else
                            (lambda: it.value(refattrs=pref)), want)
                if pref == 'default':
                    agree(what + ' [get_content]', it.get_content, want)
                ctx.ev((text, r, tr, order[0], pref))
                ctx.out(lab)
            for ra in refs:
                want = val_or_broken(deref, tiers, 'x', 'x1', ra)
                agree('resolve_ref(%r)' % ra, lambda: it.resolve_ref(ra), want)
                if want is Broken and ra in attrs:
                    st, e = catch(it.resolve_ref, ra)
                    if not isinstance(e, XigtStructureError):
                        raise Violation('resolve_ref(%r) on a broken reference raises %r '
                                        'instead of a structure error' % (ra, e))
            for tid in tiers:
                for iid in tiers[tid]['items']:
                    if tid != 'x':
                        agree('value of %s' % iid, g[tid][iid].value,
                              val_or_broken(value, tiers, tid, iid))
    ctx.sample([text, {k: algn.text(e) for k, e in refs.items()}])


def free(ctx):
    """Items outside a tier, tiers outside an IGT."""
    for ra in (C, G):
        for text in (None, '', 'x'):
            i = Item(id='i', text=text, **{ra: 'p1'})
            for holder in (None, 'tier', 'tier+attr'):
                if holder == 'tier':
                    Tier(id='t', items=[i])
                    continue
                if holder == 'tier+attr':
                    t = Tier(id='t', attributes={ra: 'p'})
                    t.append(i)
                st, got = catch(i.value)
                if text is not None:
                    if (st, got) != ('ok', text):
                        raise Violation('free item with text %r has value %r' % (text, got))
                elif st == 'ok' or not isinstance(got, XigtStructureError):
                    raise Violation('unattached item (%s) with a reference: %r instead of '
                                    'a structure error' % (holder, got))
                ctx.ev(('free', ra, text, holder))
    if Item().value() is not None or Item(alignment='x').value() is not None:
        raise Violation('an item without text and source has a value')


def members(ctx):
    """alignment, content and segmentation are the attributes of these names."""
    for make in (Item, Tier):
        for names in itertools.product((None, '', 'a', 'b1[0:1]'), repeat=3):
            kw = dict(zip((A, C, G), names))
            o = make(id='x')
            for k, v in kw.items():
                setattr(o, k, v)
            want = {k: v for k, v in kw.items() if v is not None}
            for step in range(4):
                if o.attributes != want or [getattr(o, k) for k in kw] != [
                        want.get(k) for k in kw]:
                    raise Violation('%s: references %r are %r, attributes %r' % (
                        make.__name__, want, [getattr(o, k) for k in kw], o.attributes))
                if step < 3:
                    setattr(o, (A, C, G)[step], None)
                    want.pop((A, C, G)[step], None)
            if not (kw[G] and (kw[A] or kw[C])) and make(id='x', **kw).attributes != {
                    k: v for k, v in kw.items() if v is not None}:
                raise Violation('%s(%r) has other attributes' % (make.__name__, kw))
            ctx.ev(('members', make.__name__, names))


CHAIN = [4, 7, 8, 9, 10, 11, 12, 16, 17, 20, 32, 33, 64, 65, 100]


def chain(n, ctx):
    """Chains of n tiers, tiers of n items, items composed of n items."""
    for ras in ((C,), (G,), (C, G), (G, C, C)):
        tiers = {'t0': {'attrs': {}, 'items': {
            'i0': {'text': 'abcdefgh', 'refs': {}}, 'j0': {'text': 'xy', 'refs': {}}}}}
        for k in range(1, n):
            ra = ras[k % len(ras)]
            tiers['t%d' % k] = {'attrs': {ra: 't%d' % (k - 1)}, 'items': {
                'i%d' % k: {'text': None, 'refs': {ra: [
                    (None, 'i%d' % (k - 1), [(None, k % 2, 6), (',', 0, 2)]
                     if k % 3 == 1 else None)]}},
                'j%d' % k: {'text': None, 'refs': {ra: [(None, 'j%d' % (k - 1), None)]}}}}
        for order in (list(tiers), list(reversed(tiers))):
            g = make(tiers, order)
            for text in ('abcdefgh', 'changed', '', None):
                tiers['t0']['items']['i0']['text'] = text
                g['t0']['i0'].text = text
                for tid in tiers if n < 34 else ['t%d' % (n - 1), 't1', 't%d' % (n // 2)]:
                    for iid in tiers[tid]['items']:
                        agree('chain of %d tiers (%r), %s' % (n, ras, iid), g[tid][iid].value,
                              value(tiers, tid, iid))
                ctx.ev(('chain', n, ras, order[0], text))
            tiers['t0']['items']['i0']['text'] = 'abcdefgh'
    many = [(',' if k else None, 'p%d' % k, None) for k in range(n)]
    tiers = {'p': {'attrs': {}, 'items': {'p%d' % k: {'text': 'v%d' % k, 'refs': {}}
                                          for k in range(n)}},
             'q': {'attrs': {C: 'p', G: 'p'}, 'items': {'q%d' % k: {
                 'text': None, 'refs': {C if k % 2 else G: many[:k] or many}}
                 for k in range(n)}}}
    g = make(tiers, ['p', 'q'])
    for k in range(n):
        agree('item %d of %d' % (k, n), g['q']['q%d' % k].value, value(tiers, 'q', 'q%d' % k))
        ctx.ev(('many', n, k))
    ctx.out('chains')


def span(ctx):
    tiers = pq()
    tiers['x'] = {'attrs': {G: 'p'}, 'items': {
        'x1': {'text': None, 'refs': {G: P1}}, 'x2': {'text': '', 'refs': {}},
        'x3': {'text': None, 'refs': {}}, 'x4': {'text': 'h\u00e9llo', 'refs': {}}}}
    g = make(tiers, ('p', 'q', 'x'))
    for iid in tiers['x']['items']:
        v = value(tiers, 'x', iid)
        for s, e in itertools.product((-7, -2, -1, 0, 1, 2, 5, 9, None), repeat=2):
            want = None if v is None else v[slice(s, e)]
            got = g['x'][iid].span(s, e)
            if got != want:
                raise Violation('span(%r, %r) of %r is %r' % (s, e, v, got))
            ctx.ev(('span', iid, s, e))


# ---------------------------------------------------------------- (b) histories
W1 = [(None, 'w1', [(None, 0, 1)])]
W12 = [(None, 'w1', None), (',', 'w2', None)]
W2 = [(None, 'w2', [(None, -1, 9), ('+', 0, 1)])]

OPS = [
    ('text', 'p', 'p1', 'xyz uvw'), ('text', 'p', 'p1', ''), ('text', 'p', 'p1', None),
    ('text', 'w', 'w1', 'T'), ('text', 'w', 'w1', None), ('text', 'w', 'w2', ''),
    ('text', 'm', 'm1', 'M'), ('text', 'm', 'm1', None),
    ('ref', 'w', 'w1', C, P2), ('ref', 'w', 'w1', G, P1), ('ref', 'w', 'w1', G, P2),
    ('ref', 'w', 'w2', G, QX), ('ref', 'm', 'm1', G, W2), ('ref', 'm', 'm1', C, W12),
    ('ref', 'm', 'm2', G, W1),
    ('unref', 'w', 'w1', G), ('unref', 'm', 'm1', G), ('unset', 'w', 'w2', G),
    ('unset', 'w', 'w1', C), ('tunset', 'm', G),
    ('tref', 'w', G, 'p2nd'), ('tref', 'w', C, 'p'), ('tref', 'm', C, 'w'),
    ('tref', 'm', C, 'p'), ('untref', 'w', G), ('tref', 'w', G, 'p'),
    ('replace', 'p', 'p1', 'RRR rrr'), ('replace', 'w', 'w2', 'ww'),
    ('remove', 'p', 'p2'), ('remove', 'w', 'w1'), ('addback', 'w', 'w1', 'new'),
    ('reverse', 'w'), ('swap', ), ('rmtier', 'p'), ('addtier', 'p'),
]


def start():
    return {
        'p': {'attrs': {}, 'items': {'p1': {'text': 'ab cd', 'refs': {}},
                                     'p2': {'text': 'ef', 'refs': {}}}},
        'p2nd': {'attrs': {}, 'items': {'p1': {'text': '12 34', 'refs': {}},
                                        'p2': {'text': '56', 'refs': {}}}},
        'w': {'attrs': {G: 'p'}, 'items': {
            'w1': {'text': None, 'refs': {G: P1}},
            'w2': {'text': None, 'refs': {G: [(None, 'p1', [(None, 3, 5)])]}}}},
        'm': {'attrs': {G: 'w'}, 'items': {
            'm1': {'text': None, 'refs': {G: W1}},
            'm2': {'text': None, 'refs': {G: [(None, 'w2', None)]}}}},
    }


def m_do(d, op):
    """Apply op to the description; False when it does not apply."""
    n = op[0]
    if n in ('text', 'ref', 'unref', 'unset', 'replace', 'remove'):
        if op[1] not in d or op[2] not in d[op[1]]['items']:
            return False
        it = d[op[1]]['items'][op[2]]
        if n == 'text':
            it['text'] = op[3]
        elif n == 'ref':
            it['refs'][op[3]] = op[4]
        elif n == 'unref':
            return it['refs'].pop(op[3], None) is not None
        elif n == 'unset':
            it['refs'].pop(op[3], None)
        elif n == 'replace':
            d[op[1]]['items'][op[2]] = {'text': op[3], 'refs': {}}
        else:
            del d[op[1]]['items'][op[2]]
    elif n == 'addback':
        if op[2] in d[op[1]]['items']:
            return False
        d[op[1]]['items'][op[2]] = {'text': op[3], 'refs': {}}
    elif n == 'tref':
        d[op[1]]['attrs'][op[2]] = op[3]
    elif n == 'untref':
        return d[op[1]]['attrs'].pop(op[2], None) is not None
    elif n == 'tunset':
        d[op[1]]['attrs'].pop(op[2], None)
    elif n == 'rmtier':
        return d.pop(op[1], None) is not None
    elif n == 'addtier':
        if op[1] in d:
            return False
        d[op[1]] = {'attrs': {}, 'items': {'p1': {'text': 'again x', 'refs': {}}}}
    return True


def r_do(g, op):
    n = op[0]
    if n == 'text':
        g[op[1]][op[2]].text = op[3]
    elif n == 'ref':
        if op[3] == C:
            g[op[1]][op[2]].content = algn.text(op[4])
        else:
            g[op[1]][op[2]].attributes[op[3]] = algn.text(op[4])
    elif n == 'unref':
        del g[op[1]][op[2]].attributes[op[3]]
    elif n == 'unset':
        setattr(g[op[1]][op[2]], op[3], None)
    elif n == 'tunset':
        setattr(g[op[1]], op[2], None)
    elif n == 'replace':
        t = g[op[1]]
        i = [x.id for x in t].index(op[2])
        t[i] = Item(id=op[2], text=op[3])
    elif n == 'remove':
        del g[op[1]][op[2]]
    elif n == 'addback':
        g[op[1]].insert(0, Item(id=op[2], text=op[3]))
    elif n == 'tref':
        if op[2] == G:
            g[op[1]].segmentation = op[3]
        else:
            g[op[1]].attributes[op[2]] = op[3]
    elif n == 'untref':
        del g[op[1]].attributes[op[2]]
    elif n == 'reverse':
        g[op[1]].reverse()
    elif n == 'swap':
        g.reverse()
    elif n == 'rmtier':
        del g[op[1]]
    elif n == 'addtier':
        g.append(Tier(id=op[1], items=[Item(id='p1', text='again x')]))


def observe(d, g, done, ctx):
    sig = []
    for tid in d:
        for iid in d[tid]['items']:
            for pref in ((C, G), (G, C)):
                want = val_or_broken(value, d, tid, iid, pref)
                agree('after %r: value of %s (preference %r)' % (done, iid, pref),
                      (lambda: g[tid][iid].value(pref)) if pref[0] == G
                      else g[tid][iid].value, want)
            sig.append((tid, iid, None if want is Broken else want))
    return sig


def hist(case, ctx):
    _, pre, depth = case
    for rest in itertools.product(range(len(OPS)), repeat=depth):
        d = start()
        g = make(d, list(d))
        done = []
        observe(d, g, done, ctx) if rest[0] == 0 else None
        for n in list(pre) + list(rest):
            op = OPS[n]
            if not m_do(d, op):
                break
            r_do(g, op)
            done.append(op)
            ctx.transitions += 1
            sig = observe(d, g, done, ctx)
        else:
            ctx.traces += 1
            ctx.ev(('hist', pre, rest))
            ctx.st(repr(sorted(sig, key=repr)))
    ctx.out('histories')
