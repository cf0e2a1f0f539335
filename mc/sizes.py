"""Large containers: every single operation at every (or every boundary) position
of containers of a ladder of sizes, against plain Python lists.  Shared by C01
(what is in the container), C02 (refused operations) and C03 (upward links)."""
from mc import containers as K
from mc.core import Violation
from xigt import MetaChild, Item, Tier, Igt

SIZES = (5, 8, 9, 10, 11, 12, 16, 17, 20, 21, 32, 33, 50, 51, 64, 65, 100, 101,
         128, 129, 255, 256, 257)
BIG = (500, 512, 513, 1000, 1001, 1024, 1025)


def sizes(tier):
    for kind in K.KINDS:
        for n in SIZES:
            if n <= 65 or kind in ('tier', 'igt', 'corpus') or tier == 'thorough':
                yield kind, n
    for n in BIG if tier == 'thorough' else (513, 1001):
        for kind in ('tier', 'igt', 'corpus') if tier == 'thorough' else ('tier',):
            yield kind, n


def parts(n):
    """Into how many cases the positions of one size are split."""
    return 1 if n <= 17 else 3 if n <= 65 else 6


def positions(n, part=None):
    if part is not None:
        return positions(n)[part::parts(n)]
    if n <= 17:
        return list(range(n))
    out = {0, 1, 2, n // 2, n - 3, n - 2, n - 1}
    for b in (8, 10, 16, 20, 32, 50, 64, 100, 128, 256, 512, 1000, 1024):
        out |= {b - 1, b, b + 1}
    return sorted(i for i in out if 0 <= i < n)


def label(i):
    return None if i % 5 == 4 else 'm%d' % i


def world(kind, n):
    mk, get, child, prop = K.KINDS[kind]
    owner = mk()
    c = get(owner)
    objs = [child(label(i), 't%d' % (i % 3)) for i in range(n)]
    c.extend(objs)
    return owner, c, objs, child


def same(a, b):
    return len(a) == len(b) and all(x is y for x, y in zip(a, b))


def up(o, owner):
    """o leads up to owner"""
    if isinstance(o, Item):
        return o.tier is owner
    if isinstance(o, Tier):
        return o.igt is owner
    if isinstance(o, Igt):
        return o.corpus is owner
    return o.get_attribute('probe-attr', inherit=True) == 'x'


def tag(o):
    return o.attributes['q'] if isinstance(o, MetaChild) else o.type


def look(kind, owner, c, exp):
    n = len(exp)
    if len(c) != n:
        return 'len is %d, expected %d' % (len(c), n)
    if not same(list(c), exp):
        return 'iteration yields other objects'
    if not same(list(reversed(c)), exp[::-1]):
        return 'reversed iteration yields other objects'
    prop = K.KINDS[kind][3]
    if prop and not same(list(getattr(owner, prop)), exp):
        return 'property %s yields other objects' % prop
    for i in positions(n):
        for k in (i, i - n, str(i), str(i - n)):
            if c[k] is not exp[i] or c.get(k) is not exp[i]:
                return 'c[%r] is another object' % (k,)
        if not same(list(c[i:]), exp[i:]) or not same(list(c[:i]), exp[:i]):
            return 'slices at %d differ' % i
    for k in (n, -n - 1, str(n)):
        if c.get(k, 7) != 7:
            return 'get(%r) finds something' % (k,)
    ids = {o.id: o for o in exp if o.id is not None}
    for i in list(range(n + 3)) + ['new', 'new2']:
        k = 'm%d' % i if isinstance(i, int) else i
        if c.get(k) is not ids.get(k):
            return 'id %r gives %r' % (k, c.get(k))
    for t in ('t0', 't1', 't2'):
        sel = list(c.select(attributes={'q': t}) if K.tag_is_attr(kind)
                   else c.select(type=t))
        if not same(sel, [o for o in exp if tag(o) == t]):
            return 'selection of %s differs' % t
    return None


def operations(n):
    for p in positions(n):
        for what in ('insert', 'insert-', 'set', 'setstr', 'del', 'del-', 'delstr', 'pop',
                     'pop-', 'remove', 'rotate', 'keep'):
            yield what, p
        if label(p) is not None:
            for what in ('delid', 'settwin') + TAKEN:
                yield what, p
    for what in ('append', 'insert end', 'insert far', 'insert before', 'extend', 'iadd',
                 'reverse', 'sort', 'refresh', 'clear', 'pop last', 'del no', 'pop no',
                 'set no', 'remove no', 'assign self', 'assign new'):
        yield what, None


TAKEN = ('taken append', 'taken first', 'taken insert', 'taken end', 'taken extend',
         'taken assign', 'taken assign first', 'taken set next', 'taken set last')


def perform(what, p, kind, owner, c, objs, child):
    """(function, members expected afterwards); None: has to be refused"""
    n = len(objs)
    x, y = child('new', 't1'), child('new2', 't1')
    if p is not None:
        o = objs[p]
        pre, rest = objs[:p], objs[p + 1:]
        first = next(i for i, z in enumerate(objs) if z.id == o.id and tag(z) == tag(o))
        t = child(o.id, 't9')
        return {
            'insert': (lambda: c.insert(p, x), pre + [x, o] + rest),
            'insert-': (lambda: c.insert(p - n, x), pre + [x, o] + rest),
            'set': (lambda: c.__setitem__(p, x), pre + [x] + rest),
            'setstr': (lambda: c.__setitem__(str(p - n), x), pre + [x] + rest),
            'del': (lambda: c.__delitem__(p), pre + rest),
            'del-': (lambda: c.__delitem__(p - n), pre + rest),
            'delstr': (lambda: c.__delitem__(str(p)), pre + rest),
            'pop': (lambda: c.pop(p), pre + rest),
            'pop-': (lambda: c.pop(p - n), pre + rest),
            'remove': (lambda: c.remove(o), objs[:first] + objs[first + 1:]),
            'rotate': (lambda: assign(kind, owner, [o] + rest + pre), [o] + rest + pre),
            'keep': (lambda: assign(kind, owner, (z for z in pre)), pre),
            'delid': (lambda: c.__delitem__(o.id), pre + rest),
            'settwin': (lambda: c.__setitem__(p, t), pre + [t] + rest),
            'taken append': (lambda: c.append(t), None),
            'taken first': (lambda: c.insert(0, t), None),
            'taken insert': (lambda: c.insert(p, t), None),
            'taken end': (lambda: c.insert(n, t), None),
            'taken extend': (lambda: c.extend(iter([t])), None),
            'taken assign': (lambda: assign(kind, owner, objs + [t]), None),
            'taken assign first': (lambda: assign(kind, owner, [t] + objs), None),
            'taken set next': (lambda: c.__setitem__((p + 1) % n, t), None),
            'taken set last': (lambda: c.__setitem__(p - 1, t), None),
        }[what]
    return {
        'append': (lambda: c.append(x), objs + [x]),
        'insert end': (lambda: c.insert(n, x), objs + [x]),
        'insert far': (lambda: c.insert(n + 5, x), objs + [x]),
        'insert before': (lambda: c.insert(-n - 5, x), [x] + objs),
        'extend': (lambda: c.extend(z for z in (x, y)), objs + [x, y]),
        'iadd': (lambda: c.__iadd__([x, y]), objs + [x, y]),
        'reverse': (c.reverse, objs[::-1]),
        'sort': (lambda: c.sort(key=tag), sorted(objs, key=tag)),
        'refresh': (c.refresh_index, objs),
        'clear': (c.clear, []),
        'pop last': (c.pop, objs[:-1]),
        'del no': (lambda: c.__delitem__(n), None),
        'pop no': (lambda: c.pop(n), None),
        'set no': (lambda: c.__setitem__(n, x), None),
        'remove no': (lambda: c.remove(x), None),
        'assign self': (lambda: assign(kind, owner, c), objs),
        'assign new': (lambda: assign(kind, owner, [x] + objs + [y]), [x] + objs + [y]),
    }[what]


def assign(kind, owner, val):
    setattr(owner, K.KINDS[kind][3] or 'metadata', val)


def explore(kind, n, ctx, want):
    """want: 'state' (C01), 'refused' (C02), 'links' (C03)"""
    for what in operations(n):
        owner, c, objs, child = world(kind, n)
        fn, exp = perform(*what, kind, owner, c, objs, child)
        refused = exp is None
        if (want == 'refused') != refused:
            continue
        if refused:
            exp = objs
        try:
            fn()
            err = None
        except Exception as e:
            err = e
        if refused and err is None:
            raise Violation('%s with %d members: %r is accepted' % (kind, n, what))
        if not refused and err is not None:
            raise Violation('%s with %d members: %r raises %r' % (kind, n, what, err))
        if want != 'links':
            bad = look(kind, owner, c, exp)
            if bad:
                raise Violation('%s with %d members: after %r %s' % (kind, n, what, bad))
        else:
            owner.attributes['probe-attr'] = 'x'
            for i, o in enumerate(c):
                if not up(o, owner):
                    raise Violation('%s with %d members: after %r member %d does not '
                                    'lead up to its container' % (kind, n, what, i))
        ctx.ev((kind, n, what))
        ctx.traces += 1
        ctx.transitions += 1
    ctx.out('size %d' % n)

