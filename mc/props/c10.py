"""C10: reference lookups in both directions, item lookup, index refresh."""
import itertools
import warnings
from mc.core import Violation, catch
from mc import algn
from xigt import XigtCorpus, Igt, Tier, Item, ref
from xigt.errors import XigtError, XigtLookupError, XigtWarning

ID = 'C10'
LEVEL = 'model_checking'
RULE = ('(a) every IGT over three tiers with up to k references (tier level and item '
        'level; single, spanned, repeated, multiple and dangling targets) placed in any '
        'slots; (b) every history of edits followed by a refresh: the indexed answers, '
        'the direct answers and a scan of the description must agree, and referents and '
        'referrers must be inverse relations, and '
        'answers for given attributes are current without a refresh; IGTs of up to 65 tiers and items in chains, stars and all '
        'referring to all; (c) tiers and items of '
        'extensions that allow other reference attributes by type; distinct = distinct IGT or history')
ASSUMPTIONS = ['ids are unique in the IGT', 'order of referrers is document order']
BOUNDS = {'quick': '<= 2 references in 24 slots; histories of 2 edits',
          'thorough': '<= 3 references; histories of 3 edits'}

ATTRS = ('alignment', 'content', 'segmentation')
TIERS = {'a': ['a1', 'a2', None], 'ab': ['ab1', 'a11'], 'b': ['b1', 'b2', 'b.2']}


def E(*ids, span=None):
    return [(None if k == 0 else ',', i, span) for k, i in enumerate(ids)]


REP = [(None, 'a1', [(None, 0, 1)]), ('+', 'a1', [(None, 1, 2)])]
ITEM_TARGETS = [E('a1'), E('b2', span=[(None, 0, 1), ('+', 2, 3)]), REP,
                E('ab1', 'a2'), E('gone'), E('a11', 'gone', 'b.2'), E('a2', 'a1', 'a2')]
TIER_TARGETS = [E('a'), E('ab'), E('b'), E('gone')]


def slots():
    for t in TIERS:
        for ra in ATTRS:
            yield ('t', t, ra)
    for t, items in TIERS.items():
        for i in items:
            if i is not None:
                for ra in ATTRS[:2]:
                    yield ('i', t, i, ra)


def cases(tier):
    sl = list(slots())
    k = 3 if tier == 'thorough' else 2
    yield ['refs', []]
    for n in range(1, k + 1):
        for c in itertools.combinations(range(len(sl)), n):
            yield ['refs', list(c)]
    yield ['errors']
    for n in SIZES:
        yield ['size', n]
    yield ['dups']
    yield ['shared']
    for t in range(4):
        yield ['custom', t]
    for pre in itertools.product(range(len(OPS)), repeat=k - 1):
        yield ['hist', list(pre)]


def desc(placed=()):
    """Description: ordered {tid: (attrs, ordered [(iid, attrs)])}."""
    d = {t: ({}, [(i, {}) for i in items]) for t, items in TIERS.items()}
    for slot, e in placed:
        if slot[0] == 't':
            d[slot[1]][0][slot[2]] = e
        else:
            for i, at in d[slot[1]][1]:
                if i == slot[2]:
                    at[slot[3]] = e
    return d


def make(d):
    return Igt(id='g', tiers=[
        Tier(id=t, attributes={ra: algn.text(e) for ra, e in at.items()},
             items=[Item(id=i, text='xyz', attributes={ra: algn.text(e)
                                                      for ra, e in ia.items()})
                    for i, ia in items])
        for t, (at, items) in d.items()])


def scan(d):
    """referents[id][ra] and referrers[id][ra], tier and item level apart."""
    fwd, back = {}, {}
    objs = []
    for t, (at, items) in d.items():
        objs.append(('t', t, at))
    for t, (at, items) in d.items():
        objs += [('i', i, ia) for i, ia in items if i is not None]
    level = {i: l for l, i, _ in objs}
    for l, i, at in objs:
        fwd[i] = {ra: algn.ids(at[ra]) if ra in at else [] for ra in ATTRS}
    for i in fwd:
        back[i] = {ra: [j for l, j, at in objs if ra in at and l == level[i]
                        and i in algn.ids(at[ra])] for ra in ATTRS}
    return fwd, back


def full(x):
    return {ra: list(x.get(ra, [])) for ra in set(ATTRS) | set(x)}


def check(d, g, what, ctx):
    fwd, back = scan(d)
    alive = set(fwd)
    for i in fwd:
        obj = g.get_any(i)
        if obj is None or obj.id != i:
            raise Violation('%s: get_any(%r) is %r' % (what, i, obj))
        forms = [('igt.referents', full(g.referents(i)), fwd[i]),
                 ('ref.referents', full(ref.referents(g, i)), fwd[i]),
                 ('obj.referents', full(obj.referents()), fwd[i]),
                 ('igt.referrers', full(g.referrers(i)), back[i]),
                 ('ref.referrers', full(ref.referrers(g, i)), back[i]),
                 ('obj.referrers', full(obj.referrers()), back[i])]
        for sub in (('alignment',), ('segmentation', 'content'), ATTRS, ['alignment'], ()):
            forms += [('igt.referents(%r)' % (sub,), g.referents(i, refattrs=sub),
                       {ra: fwd[i][ra] for ra in sub}),
                      ('igt.referrers(%r)' % (sub,), g.referrers(i, refattrs=sub),
                       {ra: back[i][ra] for ra in sub}),
                      ('obj.referents(%r)' % (sub,), obj.referents(sub),
                       {ra: fwd[i][ra] for ra in sub}),
                      ('obj.referrers(%r)' % (sub,), obj.referrers(refattrs=sub),
                       {ra: back[i][ra] for ra in sub})]
        for name, got, want in forms:
            if got != want:
                raise Violation('%s: %s of %r is %r, expected %r'
                                % (what, name, i, got, want))
        # inverse relation on the indexed answers
        for ra, tgts in g.referents(i).items():
            for j in tgts:
                if j in alive and level_same(d, i, j) and \
                        i not in g.referrers(j).get(ra, []):
                    raise Violation('%s: %r refers to %r but is not among its '
                                    'referrers' % (what, i, j))
        # dereferencing
        for ra in ATTRS:
            if fwd[i][ra]:
                objs = ref.dereference_all(obj, ra)
                if [None if o is None else o.id for o in objs] != \
                        [j if j in alive else None for j in fwd[i][ra]]:
                    raise Violation('%s: dereference_all(%r, %r) is %r'
                                    % (what, i, ra, objs))
                if ref.dereference(obj, ra) is not objs[0]:
                    raise Violation('%s: dereference(%r, %r)' % (what, i, ra))
    if g.get_item(None) is not None or g.get_any('', 'dd') != 'dd':
        raise Violation('%s: something is found under no id' % what)
    for t, (at, items) in d.items():
        for i, _ in items:
            if i is not None:
                if g.get_item(i) is not g[t][i] or g.get_any(i) is not g[t][i]:
                    raise Violation('%s: get_item(%r) is not the item of that id'
                                    % (what, i))
        if g.get_item(t, 'no') != 'no' or g.get_any(t) is not g[t]:
            raise Violation('%s: get_item / get_any of tier id %r' % (what, t))
    for i in ALLIDS:
        if i not in alive:
            if g.get_item(i) is not None or g.get_any(i) is not None or \
                    g.get_item(i, 'dd') != 'dd' or g.get_any(i, 'dd') != 'dd':
                raise Violation('%s: %r does not exist but is found: %r'
                                % (what, i, g.get_any(i)))
            for f in (ref.referents, ref.referrers):
                st, e = catch(f, g, i)
                if st == 'ok' or not isinstance(e, XigtLookupError):
                    raise Violation('%s: %s of unknown id: %r' % (what, f.__name__, e))
            if full(g.referents(i)) != full({}):
                raise Violation('%s: referents of unknown id %r' % (what, i))


ALLIDS = ['a', 'ab', 'b', 'a1', 'a2', 'ab1', 'a11', 'b1', 'b2', 'b.2', 'gone', 'n1', 'nt',
          'zz']


SIZES = [8, 9, 10, 11, 12, 16, 17, 32, 33, 64, 65]


def sizes(n, ctx):
    """Many tiers, many items, many references to and from one object."""
    m = lambda *ks: [(None if j == 0 else ',+'[j % 2], i, None) for j, i in enumerate(ks)]
    ids = ['t%d' % k for k in range(n)]
    its = ['i%d' % k for k in range(n)]
    ra = lambda k: ATTRS[k % 3]
    shapes = {
        'chain': {t: ({ra(k): m(ids[k - 1])} if k else {}, [(its[k], {
            ra(k): m(its[k - 1])} if k else {})]) for k, t in enumerate(ids)},
        'star': {t: ({'alignment': m(ids[0])} if k else {}, [(its[k], {
            'content': m(its[0])} if k else {})]) for k, t in enumerate(ids)},
        'all': {t: ({ra(k): m(*ids)}, [(its[k], {ra(k): m(*its)})])
                for k, t in enumerate(ids)} if n < 34 else {},
        'items': {'t0': ({}, [(i, {'alignment': m(its[n - 1 - k], i)} if k % 2 else
                               {'content': m(*its[:k])} if k else {})
                              for k, i in enumerate(its)]),
                  't1': ({'alignment': m('t0')}, [(i + 'x', {'alignment': m(i)})
                                                  for i in its])},
    }
    for name, d in shapes.items():
        if not d:
            continue
        g = make(d)
        check(d, g, '%s of %d' % (name, n), ctx)
        # the last tier goes, and the first one comes last
        if name != 'items':
            last = ids[-1]
            del g[last]
            first = g.pop(0)
            g.append(first)
            d2 = {t: d[t] for t in ids[1:-1] + ids[:1]}
            direct(d2, g, '%s of %d, changed' % (name, n))
            g.refresh_indices()
            check(d2, g, '%s of %d, changed' % (name, n), ctx)
        ctx.ev(('size', n, name))
    ctx.out('many')


def level_same(d, i, j):
    return (i in d) == (j in d)


def run(case, ctx):
    if case[0] == 'refs':
        sl = list(slots())
        chosen = [sl[i] for i in case[1]]
        for tg in itertools.product(*[TIER_TARGETS if s[0] == 't' else ITEM_TARGETS
                                      for s in chosen]):
            d = desc(list(zip(chosen, tg)))
            g = make(d)
            what = 'references %r' % [(s, algn.text(e)) for s, e in zip(chosen, tg)]
            check(d, g, what, ctx)
            ctx.ev((chosen, [algn.text(e) for e in tg]))
            ctx.out('%d references' % len(chosen))
            ctx.sample(what)
            ctx.st(repr(d))
            ctx.traces += 1
        return
    if case[0] == 'size':
        return sizes(case[1], ctx)
    if case[0] == 'errors':
        return errors(ctx)
    if case[0] == 'dups':
        return dups(ctx)
    if case[0] == 'shared':
        return shared(ctx)
    if case[0] == 'custom':
        return custom(ctx, case[1])
    for last in range(len(OPS)):
        seq = list(case[1]) + [last]
        d = desc(BASE)
        g = make(d)
        ok = True
        for n in seq:
            if not m_do(d, OPS[n]):
                ok = False
                break
            r_do(g, OPS[n])
            ctx.transitions += 1
        if not ok:
            continue
        direct(d, g, 'history %r without refresh' % [OPS[n] for n in seq])
        what = 'history %r then refresh' % [OPS[n] for n in seq]
        for kw in ({}, {'tiers': True}, {'tiers': True, 'items': True,
                                         'referents': True, 'referrers': True}):
            g.refresh_indices(**kw)
            check(d, g, what, ctx)
        ctx.ev(('hist', seq))
        ctx.traces += 1
        ctx.st(repr(d))
        selective(seq, ctx)


BASE = [(('t', 'ab', 'segmentation'), E('a')), (('i', 'ab', 'ab1', 'content'), E('a1', 'a2')),
        (('i', 'b', 'b2', 'alignment'), E('ab1'))]

OPS = [
    ('rm', 'a', 'a1'), ('rm', 'ab', 'ab1'), ('add', 'a', 'n1'), ('add', 'b', 'n1'),
    ('ref', 'ab', 'ab1', 'content', E('b2')), ('ref', 'b', 'b1', 'alignment', REP),
    ('ref', 'a', 'a2', 'content', E('n1', 'a1')), ('unref', 'ab', 'ab1', 'content'),
    ('tref', 'b', 'alignment', E('ab')), ('tref', 'ab', 'segmentation', E('b')),
    ('untref', 'ab', 'segmentation'), ('rmtier', 'a'), ('rmtier', 'b'),
    ('addtier', 'nt'), ('rename', 'a', 'a2', 'a1'), ('rename', 'a', 'a1', 'n1'),
    ('rename', 'b', 'b2', 'zz'), ('move', 'a', 'a1', 'b'), ('clear', 'ab'),
    ('reverse', 'b'), ('revtiers',), ('replace', 'a', 'a1'),
]


def find(d, t, i):
    if t in d:
        for n, (j, at) in enumerate(d[t][1]):
            if j == i:
                return n
    return None


def exists(d, i):
    return i in d or any(j == i for _, items in d.values() for j, _ in items)


def m_do(d, op):
    n = op[0]
    if n in ('rm', 'unref', 'ref', 'rename', 'move', 'replace'):
        k = find(d, op[1], op[2])
        if k is None:
            return False
        items = d[op[1]][1]
        if n == 'rm':
            del items[k]
        elif n == 'replace':
            items[k] = (op[2], {})
        elif n == 'ref':
            items[k][1][op[3]] = op[4]
        elif n == 'unref':
            return items[k][1].pop(op[3], None) is not None
        elif n == 'rename':
            if exists(d, op[3]):
                return False
            items[k] = (op[3], items[k][1])
        else:
            if op[3] not in d:
                return False
            d[op[3]][1].append(items.pop(k))
    elif n == 'add':
        if op[1] not in d or exists(d, op[2]):
            return False
        d[op[1]][1].append((op[2], {'alignment': E('a1')}))
    elif n in ('tref', 'untref', 'clear', 'reverse', 'rmtier'):
        if op[1] not in d:
            return False
        if n == 'tref':
            d[op[1]][0][op[2]] = op[3]
        elif n == 'untref':
            return d[op[1]][0].pop(op[2], None) is not None
        elif n == 'clear':
            d[op[1]][1].clear()
        elif n == 'reverse':
            d[op[1]][1].reverse()
        else:
            del d[op[1]]
    elif n == 'addtier':
        if exists(d, op[1]):
            return False
        d[op[1]] = ({'content': E('b')}, [('n1', {'content': E('b1')})]
                    if not exists(d, 'n1') else [])
    elif n == 'revtiers':
        keys = list(d)[::-1]
        for k in keys:
            d[k] = d.pop(k)
    return True


def r_do(g, op):
    n = op[0]
    if n == 'rm':
        del g[op[1]][op[2]]
    elif n == 'replace':
        t = g[op[1]]
        t[[x.id for x in t].index(op[2])] = Item(id=op[2], text='new')
    elif n == 'ref':
        g[op[1]][op[2]].attributes[op[3]] = algn.text(op[4])
    elif n == 'unref':
        del g[op[1]][op[2]].attributes[op[3]]
    elif n == 'rename':
        g[op[1]][op[2]].id = op[3]
        g[op[1]].refresh_index()
    elif n == 'move':
        it = g[op[1]][op[2]]
        del g[op[1]][op[2]]
        g[op[3]].append(it)
    elif n == 'add':
        g[op[1]].append(Item(id=op[2], attributes={'alignment': 'a1'}))
    elif n == 'tref':
        g[op[1]].attributes[op[2]] = algn.text(op[3])
    elif n == 'untref':
        del g[op[1]].attributes[op[2]]
    elif n == 'clear':
        g[op[1]].clear()
    elif n == 'reverse':
        g[op[1]].reverse()
    elif n == 'rmtier':
        del g[op[1]]
    elif n == 'addtier':
        has = any(i.id == 'n1' for t in g for i in t)
        g.append(Tier(id=op[1], attributes={'content': 'b'}, items=[] if has else
                      [Item(id='n1', attributes={'content': 'b1'})]))
    elif n == 'revtiers':
        g.reverse()


def direct(d, g, what):
    """Answers for given attributes follow the references without any refresh."""
    fwd, back = scan(d)
    objs = {o.id: o for t in g for o in list(t) if o.id is not None}
    objs.update((t.id, t) for t in g)
    for i in fwd:
        if g.get_any(i) is not objs[i]:
            continue            # the index does not know it yet
        for sub in (('alignment',), ['content', 'segmentation'], ATTRS):
            for name, got, want in (
                    ('igt.referents', g.referents(i, sub), fwd[i]),
                    ('ref.referents', ref.referents(g, i, sub), fwd[i]),
                    ('obj.referents', objs[i].referents(sub), fwd[i]),
                    ('igt.referrers', g.referrers(i, sub), back[i]),
                    ('ref.referrers', ref.referrers(g, i, sub), back[i]),
                    ('obj.referrers', objs[i].referrers(refattrs=sub), back[i])):
                if got != {ra: want[ra] for ra in sub}:
                    raise Violation('%s: %s(%r, %r) is %r' % (what, name, i, sub, got))
        for name, got, want in (('ref.referents', ref.referents(g, i), fwd[i]),
                                ('ref.referrers', ref.referrers(g, i), back[i])):
            if full(got) != want:
                raise Violation('%s: %s(%r) is %r' % (what, name, i, got))


class OwnTier(Tier):
    _allowed_refattrs = {None: ('alignment', 'content'), 'dep': ('segmentation', 'span')}


class OwnItem(Item):
    _allowed_refattrs = {None: {None: ('alignment',), 'x': ('content', 'head')},
                         'dep': {None: ('dep', 'head'), 'x': ('alignment', 'dep')}}


def custom(ctx, first):
    """Extensions say which attributes refer, by the types of tier and item."""
    names = ('alignment', 'content', 'segmentation', 'span', 'head', 'dep')
    ttypes, itypes = ('dep', 'other', None, ''), ('x', 'y', None)
    for t2, i1, i2 in itertools.product(ttypes, itypes, itypes):
        for ras in itertools.product(names, repeat=2):
            for at_tier in (False, True):
                its = [OwnItem(id='a1', type=i1, text='q'), OwnItem(id='b1', type=i2, text='r')]
                ts = [OwnTier(id='a', type=ttypes[first], items=its[:1]),
                      OwnTier(id='b', type=t2, items=its[1:])]
                objs = ts if at_tier else its
                objs[0].attributes[ras[0]] = objs[1].id
                objs[1].attributes[ras[1]] = '%s,%s' % (objs[0].id, objs[1].id)
                g = Igt(id='g', tiers=ts)
                fwd, ok = {}, {}
                for o in ts + its:
                    if isinstance(o, Tier):
                        al = OwnTier._allowed_refattrs
                        al = al[o.type] if o.type in al else al[None]
                    else:
                        al = OwnItem._allowed_refattrs
                        al = al[o.tier.type] if o.tier.type in al else al[None]
                        al = al[o.type] if o.type in al else al[None]
                    ok[o.id] = al
                    fwd[o.id] = {ra: o.attributes.get(ra, '').replace(',', ' ').split()
                                 for ra in names}
                what = 'own attributes: %r of tiers %r with items %r' % (
                    ras, (ttypes[first], t2), (i1, i2))
                for o in ts + its:
                    i = o.id
                    if sorted(o.allowed_reference_attributes()) != sorted(ok[i]):
                        raise Violation('%s: %r allows %r' % (
                            what, i, o.allowed_reference_attributes()))
                    level = [x.id for x in (ts if isinstance(o, Tier) else its)]
                    out = {ra: js for ra, js in fwd[i].items() if ra in ok[i] and js}
                    inn = {}
                    for j in level:
                        for ra in ok[j]:
                            if i in fwd[j][ra]:
                                inn.setdefault(ra, []).append(j)
                    for name, got, want in (
                            ('igt.referents', g.referents(i), out),
                            ('ref.referents', ref.referents(g, i), out),
                            ('obj.referents', o.referents(), out),
                            ('igt.referrers', g.referrers(i), inn),
                            ('ref.referrers', ref.referrers(g, i), inn),
                            ('obj.referrers', o.referrers(), inn)):
                        if {ra: js for ra, js in got.items() if js} != want:
                            raise Violation('%s: %s(%r) is %r' % (what, name, i, got))
                    for ra in names:    # asked for, all attributes count
                        if g.referents(i, [ra]) != {ra: fwd[i][ra]} or g.referrers(i, [ra]) != {
                                ra: [j for j in level if i in fwd[j][ra]]}:
                            raise Violation('%s: references of %r by %s' % (what, i, ra))
                ctx.ev(('custom', ttypes[first], t2, i1, i2, ras, at_tier))
                ctx.out('own attributes')


def selective(seq, ctx):
    """Refreshing one index refreshes that index and leaves the others."""
    fwd0, back0 = scan(desc(BASE))
    for kw in ({'items': False, 'referrers': False}, {'items': False, 'referents': False},
               {'referents': False, 'referrers': False}, {'referents': False},
               {'referrers': False}, {'referents': False, 'referrers': False,
                                      'items': False}):
        d = desc(BASE)
        g = make(d)
        for n in seq:
            m_do(d, OPS[n])
            r_do(g, OPS[n])
        g.refresh_indices(**kw)
        fwd, back = scan(d)
        what = 'history %r then refresh_indices(%r)' % ([OPS[n] for n in seq], kw)
        for i in fwd:
            if kw.get('referents', True) and full(g.referents(i)) != fwd[i]:
                raise Violation('%s: referents(%r) = %r' % (what, i, g.referents(i)))
            if kw.get('referrers', True) and full(g.referrers(i)) != back[i]:
                raise Violation('%s: referrers(%r) = %r' % (what, i, g.referrers(i)))
        for i in ALLIDS + sorted(set(fwd) - set(ALLIDS)):
            for name, was, get in (('referents', fwd0, g.referents),
                                   ('referrers', back0, g.referrers)):
                if not kw.get(name, True) and full(get(i)) != was.get(
                        i, {ra: [] for ra in ATTRS}) and not (
                        name == 'referrers' and i not in was):
                    raise Violation('%s: %s(%r) = %r, was not to be refreshed'
                                    % (what, name, i, get(i)))
        if kw.get('items', True):
            for t, (_, items) in d.items():
                for i, _ in items:
                    if i is not None and g.get_item(i) is not g[t][i]:
                        raise Violation('%s: get_item(%r)' % (what, i))
            for i in ALLIDS:
                if i not in fwd and g.get_item(i) is not None:
                    raise Violation('%s: get_item(%r) finds a removed item' % (what, i))
        ctx.ev(('sel', seq, kw))


def errors(ctx):
    """Lookups that cannot be answered."""
    for o in (Item(id='x'), Tier(id='x'), Item(), Tier(), Item(id='x', tier=Tier(id='t'))):
        for f in ('referents', 'referrers'):
            st, e = catch(getattr(o, f))
            if st == 'ok' or not isinstance(e, XigtError):
                raise Violation('%s of an unattached object: %r' % (f, e))
            ctx.ev((f, repr(type(o)), o.id))
    g = Igt(id='g', tiers=[Tier(items=[Item()])])
    for o in (g[0], g[0][0]):
        for f in ('referents', 'referrers'):
            st, e = catch(getattr(o, f))
            if st == 'ok' or not isinstance(e, XigtError):
                raise Violation('%s of an object without id: %r' % (f, e))
    for o in (Igt(id='g'), XigtCorpus()):
        for f in (ref.dereference, ref.dereference_all):
            st, e = catch(f, o, 'alignment')
            if st == 'ok' or not isinstance(e, XigtLookupError):
                raise Violation('dereference from %r: %r' % (o, e))


DUPS = [('x', 'a', {}), ('x', 'b', {}), ('x', 'a', {'alignment': 'q'}), ('x', None, {}),
        ('y', 'a', {}), (None, 'a', {}), (None, 'b', {})]


def dups(ctx):
    """Different items with the same id are warned of; they all stay."""
    for n in range(5 if ctx.thorough else 4):
        for ks in itertools.product(range(len(DUPS)), repeat=n):
            for cut in range(n + 1):
                # a tier holds an id once
                cuts = [(k, k + 1) for k in range(n)]
                part = [DUPS[k][0] for k in ks[cut:cut + 2]]
                if len(part) == 2 and (part[0] != part[1] or part[0] is None):
                    cuts[cut:cut + 2] = [(cut, cut + 2)]
                elif cut:
                    continue
                its = [Item(id=i, text=t, attributes=dict(at))
                       for i, t, at in (DUPS[k] for k in ks)]
                with warnings.catch_warnings():
                    warnings.simplefilter('ignore')
                    g = Igt(id='g', tiers=[Tier(id='t%d' % k, items=its[a:b])
                                           for k, (a, b) in enumerate(cuts)])
                for step in range(2):
                    with warnings.catch_warnings(record=True) as ws:
                        warnings.simplefilter('always')
                        g.refresh_indices()
                    what = [DUPS[k] for k in ks]
                    want = {i for i in 'xy' if len({repr(DUPS[k]) for k in ks
                                                    if DUPS[k][0] == i}) > 1}
                    got = [w for w in ws if issubclass(w.category, XigtWarning)]
                    if {i for i in 'xy' if any('"%s"' % i in str(w.message)
                                               for w in got)} != want or len(got) != len(ws) \
                            or bool(got) != bool(want):
                        raise Violation('refresh_indices with items %r warns %r' % (
                            what, [str(w.message) for w in ws]))
                    for i in 'xy':
                        o = g.get_item(i)
                        same = [it for it in its if it.id == i]
                        if (o is None) != (not same) or o is not None and \
                                not any(o is it for it in same):
                            raise Violation('get_item(%r) of %r is %r' % (i, what, o))
                    if [it for t in g for it in t] != its:
                        raise Violation('refresh_indices changes the items %r' % what)
                ctx.ev(('dups', ks, cut))
                ctx.out('same ids')


def shared(ctx):
    """Items with the id of a tier: get() and get_any() give the tier, get_item()
    the item, wherever the two are and in whatever order they were added."""
    names = ('x', 'y', 'z', None)
    for tids in itertools.permutations('xyz', 2):
        for iids in itertools.product(names, repeat=3):
            if any(i and list(iids[:2]).count(i) > 1 for i in iids[:2]) or \
                    iids[2] and iids[2] in iids[:2]:
                continue
            for late in (False, True):
                its = [Item(id=i, text='xyz') for i in iids]
                ts = [Tier(id=tids[0], items=its[:2]), Tier(id=tids[1], items=its[2:])]
                if late:
                    g = Igt(id='x')
                    for t in ts:
                        g.append(t)
                else:
                    g = Igt(id='x', tiers=ts)
                for step in range(2):
                    g.refresh_indices()
                    for i in 'xyz':
                        tier = ts[tids.index(i)] if i in tids else None
                        item = its[iids.index(i)] if i in iids else None
                        what = 'tiers %r with items %r: %%s(%r)' % (tids, iids, i)
                        for name, got, want in (
                                ('get', g.get(i), tier), ('get_item', g.get_item(i), item),
                                ('get_any', g.get_any(i), tier or item),
                                ('get_any', g.get_any(i, 'no'), tier or item or 'no')):
                            if got is not want and got != 'no' or \
                                    got == 'no' and want != 'no':
                                raise Violation('%s is %r, expected %r' % (
                                    what % name, got, want))
                ctx.ev(('shared', tids, iids, late))
                ctx.out('ids of tiers and items')
