"""Containers as ordered, id-indexed lists: pools of small objects, the
reference model and the operation alphabet used by C01, C02 and C03."""
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild

# container kind -> (make owner, get container, make child(id, tag), list property)
class MyMetaChild(MetaChild):
    pass


def _mc(id, tag):
    o = (MyMetaChild if tag == 't2' else MetaChild)('x', attributes={'q': tag})
    o.id = id
    return o

def _mk(cls):
    sub = type('My' + cls.__name__, (cls,), {})     # users may derive from the classes

    def f(id, tag):
        return (sub if tag == 't2' else cls)(id=id, type=tag)
    return f

KINDS = {
    'tier':      (lambda: Tier(id='T'), lambda o: o, _mk(Item), 'items'),
    'igt':       (lambda: Igt(id='I'), lambda o: o, _mk(Tier), 'tiers'),
    'corpus':    (lambda: XigtCorpus(id='C'), lambda o: o, _mk(Igt), 'igts'),
    'metadata':  (lambda: Metadata(id='M'), lambda o: o, _mk(Meta), 'metas'),
    'meta':      (lambda: Meta(id='M'), lambda o: o, _mc, 'children'),
    'mc':        (lambda: MetaChild('r'), lambda o: o, _mc, 'children'),
    'corpus.md': (lambda: XigtCorpus(id='C'), lambda o: o.metadata, _mk(Metadata), None),
    'igt.md':    (lambda: Igt(id='I'), lambda o: o.metadata, _mk(Metadata), None),
    'tier.md':   (lambda: Tier(id='T'), lambda o: o.metadata, _mk(Metadata), None),
}

# the pool: label -> (id, tag).  a/A: same id and equal; a/d: same id, unequal;
# n/N: no id and equal; o: no id, different
POOL = {'a': ('a', 't1'), 'b': ('b1', 't2'), 'n': (None, 't1'), 'N': (None, 't1'),
        'A': ('a', 't1'), 'd': ('a', 't3'), 'o': (None, 't2')}
ID = {k: v[0] for k, v in POOL.items()}
TAG = {k: v[1] for k, v in POOL.items()}
LABELS = list(POOL)


def equal(x, y):
    return POOL[x] == POOL[y]


class Reject(Exception):
    """The reference model says: raises, nothing changes."""


def dup(state, x, skip=None):
    return ID[x] is not None and any(
        ID[y] == ID[x] for i, y in enumerate(state) if i != skip)


# ---- reference model: pure functions on tuples of labels
def m_apply(state, op):
    """New state; raises Reject (unchanged) or Reject with .partial state."""
    s = list(state)
    name = op[0]
    if name == 'append' or name == 'add':
        if dup(s, op[1]):
            raise Reject
        return tuple(s + [op[1]])
    if name == 'insert':
        if dup(s, op[2]):
            raise Reject
        s.insert(op[1], op[2])
        return tuple(s)
    if name in ('extend_self', 'iadd_self'):
        op = (name, tuple(s))
    if name in ('extend', 'iadd', 'add_list', 'extend_gen', 'extend_self',
                'iadd_self'):
        for x in op[1]:
            if dup(s, x):
                e = Reject()
                e.partial = tuple(s)
                raise e
            s.append(x)
        return tuple(s)
    if name == 'set':
        i = int(op[1])
        if not -len(s) <= i < len(s):
            raise Reject
        i %= len(s)
        if dup(s, op[2], skip=i):
            raise Reject
        s[i] = op[2]
        return tuple(s)
    if name == 'del':
        k = op[1]
        ids = [ID[x] for x in s]
        if isinstance(k, str) and k in ids:
            i = ids.index(k)
        else:
            try:
                i = int(k)
            except ValueError:
                raise Reject
            if not -len(s) <= i < len(s):
                raise Reject
        del s[i]
        return tuple(s)
    if name == 'remove':
        for i, y in enumerate(s):
            if equal(y, op[1]):
                del s[i]
                return tuple(s)
        raise Reject
    if name == 'clear':
        return ()
    if name == 'pop':
        i = op[1] if len(op) > 1 else -1
        if not s or not -len(s) <= i < len(s):
            raise Reject
        s.pop(i)
        return tuple(s)
    if name == 'reverse':
        return tuple(reversed(s))
    if name == 'sort':
        return tuple(sorted(s, key=lambda x: TAG[x], reverse=op[1]))
    if name == 'refresh':
        return tuple(s)
    # whole-content assignment
    if name == 'assign':
        src = op[1]
        if src == 'none':
            return ()
        if src in ('self', 'list', 'iter', 'prop', 'selfgen'):
            return tuple(s)
        if src == 'rev':
            return tuple(reversed(s))
        if src == 'select':     # keep those of type/tag t1, given lazily
            return tuple(x for x in s if TAG[x] == 't1')
        if src == 'lits':
            try:
                return m_apply((), ('extend', op[2]))
            except Reject:      # refused as a whole
                raise Reject from None
    raise AssertionError(op)


def r_apply(kind, owner, c, objs, op):
    """Apply op to the real container."""
    name = op[0]
    if name == 'append':
        return c.append(objs[op[1]])
    if name == 'add':
        return c.add(objs[op[1]])
    if name == 'insert':
        return c.insert(op[1], objs[op[2]])
    if name == 'extend':
        return c.extend([objs[x] for x in op[1]])
    if name == 'extend_self':
        return c.extend(c)
    if name == 'iadd_self':
        c2 = c
        c2 += c
        return None
    if name == 'extend_gen':
        return c.extend(objs[x] for x in op[1])
    if name == 'add_list':
        return c.add_list([objs[x] for x in op[1]])
    if name == 'iadd':
        c2 = c
        c2 += [objs[x] for x in op[1]]
        if c2 is not c:
            raise AssertionError('+= returned a different object')
        return None
    if name == 'set':
        c[op[1]] = objs[op[2]]
        return None
    if name == 'del':
        del c[op[1]]
        return None
    if name == 'remove':
        return c.remove(objs[op[1]])
    if name == 'clear':
        return c.clear()
    if name == 'pop':
        return c.pop(*op[1:])
    if name == 'reverse':
        return c.reverse()
    if name == 'sort':
        return c.sort(key=tag_of, reverse=op[1])
    if name == 'refresh':
        return c.refresh_index()
    if name == 'assign':
        src = op[1]
        prop = KINDS[kind][3] or 'metadata'
        tgt = owner
        if src == 'none':
            val = None
        elif src == 'self':
            val = c
        elif src == 'prop':
            val = getattr(tgt, prop)
        elif src == 'list':
            val = list(c)
        elif src == 'iter':
            val = iter(c)
        elif src == 'selfgen':
            val = (x for x in c)
        elif src == 'rev':
            val = reversed(c)
        elif src == 'select':
            val = (c.select(attributes={'q': 't1'}) if tag_is_attr(kind)
                   else c.select(type='t1'))
        elif src == 'lits':
            val = [objs[x] for x in op[2]]
        setattr(tgt, prop, val)
        return None
    raise AssertionError(op)


def tag_is_attr(kind):
    return kind in ('meta', 'mc')


def tag_of(o):
    return o.attributes['q'] if isinstance(o, MetaChild) else o.type


def fresh(kind):
    mk, get, child, prop = KINDS[kind]
    owner = mk()
    c = get(owner)
    objs = {lab: child(ID[lab], TAG[lab]) for lab in LABELS}
    return owner, c, objs


def observe(kind, owner, c, objs, state):
    """Compare every observation of the real container with the model state;
    returns an error text or None."""
    exp = [objs[x] for x in state]
    n = len(exp)
    if len(c) != n:
        return 'len is %d, expected %d' % (len(c), n)
    got = list(c)
    if len(got) != n or any(x is not y for x, y in zip(got, exp)):
        return 'iteration yields other objects than the reference list'
    got = list(reversed(c))
    if len(got) != n or any(x is not y for x, y in zip(got, reversed(exp))):
        return 'reversed iteration differs'
    if bool(c) != bool(exp):
        return 'truth value differs'
    prop = KINDS[kind][3]
    if prop:
        got = getattr(owner, prop)
        if len(got) != n or any(x is not y for x, y in zip(got, exp)):
            return 'property %s differs' % prop
    for i in range(-n - 1, n + 2):
        for key in (i, str(i)):
            try:
                r = c[key]
            except IndexError:
                r = IndexError
            except KeyError:
                r = KeyError
            if -n <= i < n:
                if r is not exp[i]:
                    return 'c[%r] is not the object at that position' % (key,)
            elif r is not IndexError:
                return 'c[%r] out of range gives %r' % (key, r)
            g = c.get(key, 'dflt')
            if g is not (exp[i] if -n <= i < n else 'dflt'):
                if not (g == 'dflt' and not -n <= i < n):
                    return 'get(%r) is wrong' % (key,)
    for sl in (slice(None), slice(0, 1), slice(1, None), slice(None, None, -1)):
        got = list(c[sl])
        want = exp[sl]
        if len(got) != len(want) or any(x is not y for x, y in zip(got, want)):
            return 'slice %r differs' % (sl,)
    ids = {}
    for x, o in zip(state, exp):
        if ID[x] is not None:
            ids[ID[x]] = o
    for _id in ('a', 'b1', 'zz', 'b', 'a1'):
        try:
            r = c[_id]
        except KeyError:
            r = KeyError
        if r is not ids.get(_id, KeyError):
            return 'lookup of id %r gives %r, expected %s' % (
                _id, r, 'the member with that id' if _id in ids else 'KeyError')
        if c.get(_id) is not ids.get(_id):
            return 'get(%r) gives %r' % (_id, c.get(_id))
        got = list(c.select(id=_id))
        want = [o for o in exp if o.id == _id]
        if [id(x) for x in got] != [id(x) for x in want]:
            return 'select(id=%r) differs' % _id
    for t in ('t1', 't2', None):
        got = list(c.select(attributes={'q': t}) if tag_is_attr(kind)
                   else c.select(type=t))
        want = [o for x, o in zip(state, exp) if TAG[x] == t]
        if [id(x) for x in got] != [id(x) for x in want]:
            return 'select on type %r differs' % t
    if [id(x) for x in c.select(id=None)] != [id(x) for x in exp if x.id is None]:
        return 'select(id=None) differs'
    got = list(c.select(namespace=None))
    if [id(x) for x in got] != [id(x) for x in exp]:
        return 'select(namespace=None) differs'
    if list(c.select(namespace='no-such')):
        return 'select(namespace=...) selects wrong objects'
    for lab in LABELS:
        # membership by identity is implied by membership of equal objects
        if any(equal(lab, x) for x in state) != (objs[lab] in c):
            return '"in" is wrong for %s' % lab
    return None


def model_graph(start, ops, maxlen):
    """Explicit-state BFS of the reference model: states and, for every state,
    a shortest history of operations reaching it."""
    hist = {start: ()}
    todo = [start]
    for s in todo:
        for op in ops:
            try:
                t = m_apply(s, op)
            except Reject as e:
                t = getattr(e, 'partial', s)
            if len(t) <= maxlen and t not in hist:
                hist[t] = hist[s] + (op,)
                todo.append(t)
    return hist


def alphabet(tier='quick', small=False):
    """Operations, simplest first."""
    L = ['a', 'b', 'n', 'N', 'A', 'd'] if not small else ['a', 'b', 'n', 'd']
    ops = [('append', x) for x in L]
    ops += [('insert', i, x) for i in ((0, 1, -1) if not small else (0,)) for x in L]
    ops += [('set', i, x) for i in ((0, -1, '1') if not small else (0, -1))
            for x in (['a', 'b', 'n', 'd'] if not small else ['a', 'n'])]
    ops += [('del', k) for k in ((0, -1, 1, '0', 'a', 'b1', 'zz', 7) if not small
                                 else (0, -1, 'a'))]
    ops += [('remove', x) for x in (L if not small else ['a', 'n', 'd'])]
    ops += [('pop',), ('pop', 0), ('clear',), ('reverse',), ('sort', False)]
    ops += [('iadd', ('b', 'n')), ('extend', ('a', 'b')), ('assign', 'self'),
            ('assign', 'select')]
    if not small:
        ops += [('sort', True), ('refresh',), ('add', 'a'), ('add', 'n'),
                ('add_list', ('b', 'n')), ('extend', ()), ('extend_gen', ('n', 'a')),
                ('extend', ('n', 'n')), ('extend', ('a', 'd')), ('iadd', ('a',)),
                ('iadd', ('b', 'a')), ('extend_self',), ('iadd_self',), ('pop', 1), ('pop', -2),
                ('assign', 'list'), ('assign', 'iter'), ('assign', 'selfgen'),
                ('assign', 'rev'), ('assign', 'none'), ('assign', 'prop'),
                ('assign', 'lits', ('b', 'a')), ('assign', 'lits', ('n', 'N', 'd')),
                ('assign', 'lits', ('A',)), ('assign', 'lits', ('N',)), ('set', 0, 'N'),
                ('set', 0, 'A')]
    return ops


def ops_for(kind, ops):
    if kind.endswith('.md'):
        return [o for o in ops if o not in (('assign', 'none'), ('assign', 'prop'))]
    return ops
