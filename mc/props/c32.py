"""C32: every object can be printed, and says which object it is."""
import itertools
import re
from mc.core import Violation
from mc.dom import metadata, meta, mc
from mc.dom import build as build_spec
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild

ID = 'C32'
LEVEL = 'exploration'
IMPORTS = ('xigt', 'xigt.model', 'xigt.metadata')
RULE = ('(a) all combinations of text / content / segmentation settings of an item and its tier '
        '(absent, valid, missing tier, missing item, missing attribute, range, own tier, cyclic, '
        'malformed) x attached to nothing, a tier, an IGT or a corpus x ids and types; (b) all '
        'kinds of containers x ids, types, names x 0..12 members (with and without metadata) x '
        'every insertion and removal from there x loading mode; (c) all cyclic value graphs of '
        'up to 3 items; each object printed with repr, str and format before and after the '
        'edits; required: no exception, kind, id (or name), current number of members, '
        'current value, nothing changed; distinct = distinct object states')
ASSUMPTIONS = ['the address and the exact wording are not prescribed']
KINDS = {XigtCorpus: 'XigtCorpus', Igt: 'Igt', Tier: 'Tier', Item: 'Item', Metadata: 'Metadata',
         Meta: 'Meta', MetaChild: 'MetaChild'}
A, C, G = 'alignment', 'content', 'segmentation'
UNKNOWN = object()


def check(o, value=UNKNOWN, count=None, ctx=None, key=None):
    """o: any object; value: its value if it is an item that has one."""
    try:
        texts = [repr(o), str(o), '%s' % (o,), '{}'.format(o), '{!r}'.format(o)]
    except Exception as ex:
        raise Violation('%s cannot be printed (%s: %s) %r' % (
            KINDS[type(o)], type(ex).__name__, ex, key))
    if len(set(texts)) != 1:
        raise Violation('repr and str differ: %r' % texts)
    s = texts[0]
    kind = KINDS[type(o)]
    words = re.findall(r'[\w.:-]+', s)
    if words[:1] != [kind]:
        raise Violation('%r does not say that it is a %s' % (s, kind))
    name = o.name if isinstance(o, MetaChild) else o.id
    if name is not None and (name if isinstance(o, MetaChild) else 'id: ' + name) not in s:
        raise Violation('%r does not give the id or name %r' % (s, name))
    if name is None and ' id: --' not in s.replace('(', ' '):
        raise Violation('%r gives an id to an object without one' % s)
    if count is not None and str(count) not in re.findall(r'with (\d+) ', s):
        raise Violation('%r does not give the number of members %d' % (s, count))
    if isinstance(o, Item) and value is not UNKNOWN and value is not None:
        if '"%s"' % value not in s:
            raise Violation('%r does not give the value %r' % (s, value))
    if isinstance(o, Tier) and o.type is not None and o.type not in s:
        raise Violation('%r does not give the type %r' % (s, o.type))
    if ctx is not None:
        ctx.ev((key, texts[0].split(' at ')[0]))
        ctx.out(kind)
        ctx.sample(s.split(' at ')[0])
    return s


# ----------------------------------------------------------------- (a) items

TEXTS = [None, '', 'x', 'a "b" {c} %s \u3042\n']
ITEMREF = [None, 'p1', 'p1[0:2],p2', 'gone', 'p1,gone', 'p1[7:9]', 'x1', 'p3', '', '((', 'p1[', '2']
TIERREF = [None, 'p', 'gone', 't', 'q', '']
VAL = {'p1': 'p1[0:2],p2'}


def resolved(tref, iref, own):
    """Value that a reference gives, or UNKNOWN where it cannot be resolved."""
    vals = {'p1': 'abc', 'p2': 'de', 'p3': ''}
    if tref != 'p':
        return UNKNOWN
    return {'p1': 'abc', 'p1[0:2],p2': 'ab de', 'p1[7:9]': '', 'p3': ''}.get(iref, UNKNOWN)


def items(ctx, where):
    for text, ci, gi, ct, gt in itertools.product(TEXTS, ITEMREF, [None, 'p2', 'gone', 'x1'],
                                                  TIERREF, [None, 'p', 'gone']):
        for iid in (None, 'x1'):
            at = {k: v for k, v in ((C, ci), (G, gi)) if v is not None}
            tat = {k: v for k, v in ((C, ct), (G, gt)) if v is not None}
            it = Item(id=iid, text=text, attributes=at)
            t = g = xc = None
            if where > 0:
                t = Tier(id='t', items=[Item(id='y', text='yy'), it], attributes=tat)
            if where > 1:
                g = Igt(id='g', tiers=[
                    Tier(id='p', items=[Item(id='p1', text='abc'), Item(id='p2', text='de'),
                                        Item(id='p3')]),
                    t])
            if where > 2:
                xc = XigtCorpus(igts=[g])
            if text is not None:
                want = text
            elif ci is not None:
                want = resolved(ct, ci, iid) if where > 1 else UNKNOWN
            elif gi is not None:
                want = 'de' if (gt, gi) == ('p', 'p2') and where > 1 else UNKNOWN
            else:
                want = None
            before = (dict(it.attributes), it.text, it.id)
            check(it, want, ctx=ctx, key=(where, text, ci, gi, ct, gt, iid))
            for o, n in ((t, 2), (g, 2), (xc, 1)):
                if o is not None:
                    check(o, count=n)
            if before != (it.attributes, it.text, it.id):
                raise Violation('printing changes the item')


# ------------------------------------------------------------ (b) containers

def containers(ctx):
    ids = [None, 'a', 'with-1', 'at.2']
    mk = {
        'XigtCorpus': (lambda ch, **kw: XigtCorpus(igts=ch, **kw), lambda i: Igt(id='m%d' % i)),
        'Igt': (lambda ch, **kw: Igt(tiers=ch, **kw), lambda i: Tier(id='m%d' % i)),
        'Tier': (lambda ch, **kw: Tier(items=ch, **kw), lambda i: Item(id='m%d' % i)),
        'Metadata': (lambda ch, **kw: Metadata(metas=ch, **kw), lambda i: Meta(id='m%d' % i)),
        'Meta': (lambda ch, **kw: Meta(children=ch, **kw), lambda i: MetaChild('m%d' % i)),
        'MetaChild': (lambda ch, **kw: MetaChild('n' + (kw.get('id') or ''), children=ch),
                      lambda i: MetaChild('m%d' % i)),
    }
    for kind, (make, child) in mk.items():
        counted = kind not in ('Meta', 'MetaChild')
        for i, ty, n in itertools.product(ids, (None, '', 'ty'), range(13)):
            for md in ((0, 1) if kind in ('XigtCorpus', 'Igt', 'Tier') else (0,)):
                kw = {'id': i, 'type': ty}
                if md:
                    kw['metadata'] = [Metadata(metas=[Meta(text='z')])]
                o = make([child(k) for k in range(n)], **kw)
                check(o, count=n if counted else None, ctx=ctx, key=(kind, i, ty, n, md))
                o.append(child(99))
                check(o, count=n + 1 if counted else None)
                del o[0]
                check(o, count=n if counted else None)
                o.id = 'q-7'
                check(o, count=n if counted else None)
                o.clear()
                check(o, count=0 if counted else None)
    # long ids, many members, long values: nothing is cut short
    for n in (13, 99, 100, 101, 255, 256, 257, 1000, 1001, 10000):
        long = 'a' + 'b-c.d' * n
        for kind, (make, child) in mk.items():
            counted = kind not in ('Meta', 'MetaChild')
            if n <= 1001:
                check(make([child(k) for k in range(n)], id='i', type='t'),
                      count=n if counted else None, ctx=ctx, key=('many', kind, n))
            check(make([], id=long, type='u' * n), count=0 if counted else None,
                  ctx=ctx, key=('long', kind, n))
    for n in list(range(200)) + [255, 256, 257, 1023, 1024, 1025, 5000, 70000]:
        for text in ('x' * n, 'a b ' * n, '\u3042' * n, '"\n' * n, ' ' * n):
            check(Item(id='a1', text=text), text, ctx=ctx, key=('text', n, text[:4]))
            p = Item(id='p1', text=text)
            q = Item(id='q1', content='p1')
            Igt(tiers=[Tier(id='p', items=[p]), Tier(id='q', content='p', items=[q])])
            check(q, text, ctx=ctx, key=('content', n, text[:4]))
    # members with and without ids, types and texts
    for ks in itertools.product(range(4), repeat=4):
        kws = [{}, {'id': 'm%d', 'type': 'a'}, {'type': 'b'}, {'id': 'n%d'}]
        for make, child in ((lambda ch: Tier(id='a', items=ch), Item),
                            (lambda ch: Igt(id='a', tiers=ch), Tier),
                            (lambda ch: XigtCorpus(id='a', igts=ch), Igt),
                            (lambda ch: Metadata(id='a', metas=ch), Meta)):
            ch = [child(**{a: v.replace('%d', str(n)) for a, v in kws[k].items()})
                  for n, k in enumerate(ks) if k or n]
            check(make(ch), count=len(ch), ctx=ctx, key=('mixed', child.__name__, ks))
    for mode in ('full', 'incremental', 'transient'):
        for n, k in itertools.product(range(4), range(5)):
            xc = XigtCorpus(id='c', igts=(Igt(id='g%d' % i) for i in range(n)), mode=mode)
            it = iter(xc)
            for _ in range(k):
                next(it, None)
            held = n if mode == 'full' else min(n, k) if mode == 'incremental' else 0
            check(xc, count=held, ctx=ctx, key=('mode', mode, n, k))
            if [g.id for g in xc] != ['g%d' % i for i in range(
                    0 if mode != 'transient' else k, n)]:
                raise Violation('printing a %s corpus loads or loses igts' % mode)
    for nm in ('a', '_x', 'a-b.c', '\u00e9', 'id', 'with'):
        for m in (MetaChild(nm), MetaChild(nm, text='t', attributes={'id': 'z'},
                                           children=[MetaChild('b')])):
            check(m, ctx=ctx, key=('mc', nm, len(m)))
            check(Meta(children=[m], text='x'), ctx=ctx, key=('meta', nm, len(m)))


# ------------------------------------------------------- (c) cyclic values

def cyclic(ctx):
    names = ['a', 'b', 'c']
    for n in (1, 2, 3):
        for tgt in itertools.product([None] + names[:n], repeat=n):
            for ra in (C, G):
                its = [Item(id=x, attributes={} if r is None else {ra: r})
                       for x, r in zip(names, tgt)]
                Igt(tiers=[Tier(id='t', attributes={ra: 't'}, items=its)])
                for i in its:
                    check(i, ctx=ctx, key=('cyc', ra, tgt, i.id))
                    check(i)


def cases(tier):
    for w in range(4):
        yield ['items', w]
    yield ['containers']
    yield ['cyclic']


def run(case, ctx):
    if case[0] == 'items':
        items(ctx, case[1])
    elif case[0] == 'containers':
        containers(ctx)
    else:
        cyclic(ctx)
