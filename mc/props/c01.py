"""C01: every container is an ordered list with an exact id index."""
import itertools
from mc.core import Violation
from mc import containers as K, sizes
from xigt import XigtCorpus, Igt, Tier, Metadata, Meta
from xigt.errors import XigtError

ID = 'C01'
LEVEL = 'model_checking'
RULE = ('explicit-state search of the reference model (tuples over a pool of '
        'objects with colliding ids) and, for every state and every operation, '
        'replay of the shortest history plus the operation on a fresh real '
        'container of each kind; then every operation sequence up to a depth '
        'without merging states; then every single operation at every (boundary) '
        'position of containers of a ladder of sizes; non-trivial: the operation sequence is not empty')
ASSUMPTIONS = ['sequences: at most 3 members, 6 pool objects (two equal without id, '
               'three sharing an id); single operations: up to 1025 members', 'CPython list semantics for positions']
BOUNDS = {'quick': 'lists <= 3, all transitions; un-merged sequences of depth 2 '
                   '(full alphabet) and 3 (small alphabet); ladder to 1001 members',
          'thorough': 'lists <= 4, all transitions; un-merged sequences of depth '
                      '3 (full alphabet) and 4 (small alphabet); ladder to 1025 members'}


def cases(tier):
    thorough = tier == 'thorough'
    full = K.alphabet()
    small = K.alphabet(small=True)
    for kind in K.KINDS:
        ops = K.ops_for(kind, full)
        graph = K.model_graph((), ops, 4 if thorough else 3)
        for s, hist in graph.items():
            yield ['state', kind, list(hist)]
    for kind in K.KINDS:
        for st in (['a'], ['b'], ['n'], ['a', 'b'], ['n', 'a'], ['a', 'n', 'b']):
            yield ['rename', kind, st]
        yield ['select', kind]
        yield ['selvalues', kind]
    for kind in K.KINDS:
        ops = K.ops_for(kind, full)
        for op in ops:
            yield ['seq', kind, [op], 'full', 2 if thorough else 1]
        for op in K.ops_for(kind, small):
            yield ['seq', kind, [op], 'small', 3 if thorough else 2]
    for kind, n in sizes.sizes(tier):
        yield ['size', kind, n]


def tup(op):
    return tuple(tuple(x) if isinstance(x, list) else x for x in op)


def step(kind, owner, c, objs, state, op, hist):
    """One operation on the real container against the model."""
    try:
        want = K.m_apply(state, op)
        rejected = False
    except K.Reject as e:
        want = getattr(e, 'partial', state)
        rejected = True
    try:
        ret = K.r_apply(kind, owner, c, objs, op)
        raised = None
    except Exception as e:
        raised = e
    if rejected and raised is None:
        raise Violation('%s: after %r, %r must be rejected but was accepted'
                        % (kind, hist, op))
    if not rejected and raised is not None:
        raise Violation('%s: after %r, %r raised %r' % (kind, hist, op, raised))
    if op[0] == 'pop' and not rejected:
        i = op[1] if len(op) > 1 else -1
        if ret is not objs[state[i]]:
            raise Violation('%s: after %r, %r returned another object'
                            % (kind, hist, op))
    return want


def replay(kind, hist, ctx, check_each=False):
    owner, c, objs = K.fresh(kind)
    state = ()
    for i, op in enumerate(hist):
        state = step(kind, owner, c, objs, state, op, hist[:i])
        if check_each or i == len(hist) - 1:
            err = K.observe(kind, owner, c, objs, state)
            if err:
                raise Violation('%s: after %r (expected members %r): %s'
                                % (kind, hist[:i + 1], state, err))
    return state


def run(case, ctx):
    if case[0] == 'size':
        return sizes.explore(case[1], case[2], ctx, 'state')
    if case[0] == 'state':
        _, kind, hist = case
        hist = tuple(tup(o) for o in hist)
        ctx.states += 1
        if not hist:
            owner, c, objs = K.fresh(kind)
            err = K.observe(kind, owner, c, objs, ())
            if err:
                raise Violation('%s: empty container: %s' % (kind, err))
        for op in K.ops_for(kind, K.alphabet()):
            h = hist + (op,)
            s = replay(kind, h, ctx, check_each=True)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.ev((kind, h))
            ctx.out('len=%d' % len(s))
        ctx.sample([kind, hist + (op,), s])
    elif case[0] == 'rename':
        rename(case, ctx)
    elif case[0] == 'select':
        select(case[1], ctx)
    elif case[0] == 'selvalues':
        selvalues(case[1], ctx)
    else:
        _, kind, pre, which, depth = case
        ops = K.ops_for(kind, K.alphabet(small=which == 'small'))
        pre = tuple(tup(o) for o in pre)
        for rest in itertools.product(ops, repeat=depth):
            h = pre + rest
            s = replay(kind, h, ctx)
            ctx.traces += 1
            ctx.ev((kind, h))


def rename(case, ctx):
    """An identifier changes and the index is refreshed explicitly."""
    _, kind, state = case
    for i in range(len(state)):
        for new in ('z', 'zz', None, 'a', 'b1'):
            for second in (None, 'q9'):
                owner, c, objs = K.fresh(kind)
                c.extend([objs[x] for x in state])
                ids = [o.id for o in c]
                if new in ids and new != ids[i] and new is not None:
                    continue
                c[i].id = new
                ids[i] = new
                if second:
                    c.refresh_index()
                    c[i].id = second
                    ids[i] = second
                for k in ('a', 'b1', 'z', 'zz', 'q9'):
                    # a selection looks at the current ids
                    if [id(o) for o in c.select(id=k)] != [
                            id(o) for o in c if o.id == k]:
                        raise Violation('%s %r: after renaming position %d to %r, '
                                        'select(id=%r) is wrong' % (kind, state, i, new, k))
                if kind == 'igt':
                    owner.refresh_indices(tiers=True)
                else:
                    c.refresh_index()
                for k in ('a', 'b1', 'z', 'zz', 'q9'):
                    got = c.get(k)
                    want = c[ids.index(k)] if k in ids else None
                    if got is not want:
                        raise Violation(
                            '%s %r: after renaming position %d to %r and '
                            'refreshing, id %r gives %r' % (kind, state, i, new, k, got))
                # the old id is free again, the new one is taken
                mk = K.KINDS[kind][2]
                for k in ('a', 'b1', 'z', 'zz', 'q9'):
                    n = len(c)
                    o = mk(k, 't1')
                    try:
                        c.append(o)
                        ok = True
                    except Exception:
                        ok = False
                    if ok != (k not in ids) or len(c) != n + (k not in ids):
                        raise Violation('%s %r: after renaming to %r, append of id '
                                        '%r %s' % (kind, state, new, k,
                                                   'accepted' if ok else 'rejected'))
                    if ok:
                        del c[k]
                ctx.ev((kind, state, i, new, second))
                ctx.traces += 1
    for i, j in itertools.permutations(range(len(state)), 2):
        # two members that have come to share an id cannot be indexed
        owner, c, objs = K.fresh(kind)
        c.extend([objs[x] for x in state])
        if c[j].id is None:
            continue
        c[i].id = c[j].id
        for refresh in [c.refresh_index] + ([lambda: owner.refresh_indices(tiers=True)]
                                            if kind == 'igt' else []):
            try:
                refresh()
            except Exception as e:
                if not isinstance(e, XigtError):
                    raise Violation('%s %r: refreshing with the id of %d at %d raises %r'
                                    % (kind, state, j, i, e))
            else:
                raise Violation('%s %r: refreshing accepts two members with the id %r'
                                % (kind, state, c[j].id))
            if list(map(id, c)) != [id(objs[x]) for x in state]:
                raise Violation('%s %r: a refused refresh changes the members'
                                % (kind, state))
        # once the ids differ again everything is found
        c[i].id = 'z9'
        c.refresh_index()
        for o in c:
            if o.id is not None and c.get(o.id) is not o:
                raise Violation('%s %r: after a refused and a good refresh %r is not '
                                'found' % (kind, state, o.id))
        ctx.ev((kind, state, 'dup', i, j))


MAPS = [{}, {'p': 'u1', 'q': 'u2'}, {'p': 'u2', 'u2': 'u1'}, {None: 'u1', '': 'u2'}]
NSS = [None, '', 'p', 'q', 'u1', 'u2', 'zz']


VALS = {
    'type': [None, '', 'None', 'a', 'A', ' a', 'a,b', '0'],
    'text': [None, '', 'None', 'x', ' x', '1'],
    'attributes': [{}, {'q': '1'}, {'q': '1', 'r': '2'}, {'q': 'None'}, {'r': '2', 'q': '1'}],
    'namespace': [None, '', 'None', 'u:1', 'U:1'],
}


def selvalues(kind, ctx):
    """A selection compares the values themselves, in all combinations."""
    for key, vals in VALS.items():
        for vs in itertools.product(vals, repeat=3):
            owner, c, objs = K.fresh(kind)
            mem = [objs[x] for x in ('a', 'b', 'n')]
            if key not in vars(mem[0]) and key not in ('attributes', 'namespace'):
                continue
            for o, v in zip(mem, vs):
                setattr(o, key, v)
            c.extend(mem)
            for q in vals + [object(), 0, 1, True, False, ()] + (
                    [[]] if key != 'namespace' else []):
                exp = [o for o in mem if getattr(o, key) == q]
                for more in ({}, {'id': mem[0].id}, {'id': 'None'}, {'id': None}):
                    got = list(c.select(**dict(more, **{key: q})))
                    want = [o for o in exp if not more or o.id == more['id']]
                    if list(map(id, got)) != list(map(id, want)):
                        raise Violation('%s: select(%s=%r, %r) of members with %r gives %r'
                                        % (kind, key, q, more, vs, got))
            ctx.ev((kind, 'selvalues', key, repr(vs)))


def select(kind, ctx):
    """Selections by namespace (as URI or prefix), id and type together."""
    up = {'tier': lambda o: Igt(tiers=[o]), 'igt': lambda o: XigtCorpus(igts=[o]),
          'metadata': lambda o: Igt(metadata=[o]), 'meta': lambda o: Metadata(metas=[o]),
          'mc': lambda o: Meta(children=[o]), 'tier.md': lambda o: Igt(tiers=[o])}.get(kind)
    for m, mu, ns in itertools.product(MAPS, MAPS if up else MAPS[:1],
                                       itertools.combinations_with_replacement(NSS, 3)):
        owner, c, objs = K.fresh(kind)
        mem = [objs[x] for x in ('a', 'b', 'n')]
        for o, n in zip(mem, ns):
            o.namespace = n
        c.extend(mem)
        top = up(owner) if up else None
        if m:
            owner.nsmap = dict(m)
        if mu and top is not None:
            top.nsmap = dict(mu)
        eff = m or mu
        for q in NSS:
            want = eff[q] if q in eff else q
            for kw in ({}, {'id': 'a'}, {'id': None}, {'type': 't1'}, {'attributes': {}},
                       {'nosuch': None}, {'nosuch': 1}):
                got = list(c.select(namespace=q, **kw))
                exp = [o for o in mem if o.namespace == want
                       and all(getattr(o, k, None) == v for k, v in kw.items())]
                if list(map(id, got)) != list(map(id, exp)):
                    raise Violation('%s with prefixes %r: select(namespace=%r, %r) of members in '
                                    '%r gives %r' % (kind, eff, q, kw, ns, got))
        ctx.ev((kind, 'select', repr(m), repr(mu), ns))
