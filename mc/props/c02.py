"""C02: a rejected modification changes nothing."""
import itertools
from mc.core import Violation
from mc import containers as K, sizes
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild
from xigt.errors import XigtError, XigtStructureError

ID = 'C02'
LEVEL = 'model_checking'
RULE = ('every reachable state of the reference container model (<= 3 members) '
        'x every operation the model rejects on it (duplicate id, wrong kind, '
        'bad position, unknown id, non-member, slice assignment, bad identifier, whole '
        'contents with a repeated id or an object of the wrong kind, also lazily or '
        'with a source that fails) '
        'replayed on a fresh real container of every kind; container, index, '
        'parents and attributes of every pool object compared before and after; and the '
        'refused operations at every (boundary) position of containers of a ladder of '
        'sizes')
ASSUMPTIONS = ['extending by several objects may keep those accepted before the rejected '
               'one; assigning whole contents may not']
BOUNDS = {'quick': 'containers <= 3; ladder to 1001 members', 'thorough': 'containers <= 4; ladder to 1025 members'}

FOREIGN = {
    'item': lambda: Item(id='f1'), 'tier': lambda: Tier(id='f1'),
    'igt': lambda: Igt(id='f1'), 'corpus': lambda: XigtCorpus(id='f1'),
    'metadata': lambda: Metadata(id='f1'), 'meta': lambda: Meta(id='f1'),
    'mc': lambda: MetaChild('f1'), 'none': lambda: None, 'str': lambda: 'a',
    'list': lambda: [Item(id='f1')], 'dict': lambda: {'id': 'f1'},
}
HOLDS = {'tier': 'item', 'igt': 'tier', 'corpus': 'igt', 'metadata': 'meta',
         'meta': 'mc', 'mc': 'mc', 'corpus.md': 'metadata', 'igt.md': 'metadata',
         'tier.md': 'metadata'}
ODD = ['x y', '', None, 1.5, 10 ** 30, -10 ** 30, '1e0', (0,), [0], b'0', slice(0, 1), {}]
NOTSET = [i for i, x in enumerate(ODD) if x in (1.5, b'0')]    # int() of these works
# ids that begin like an id (the schema: [A-Za-z][-_.\w]*) but do not end like one
TAIL_IDS = ['a b', 'a\n', 'a:b', 'a/b', 'a[0:1]', 'a,b', 'a+b']
BAD_IDS = ['', '1', '1a', '-a', '.a', '_a', ' a', ':a', '#', '\u00e9', '\n', '0']


def cases(tier):
    ops = K.alphabet()
    for kind in K.KINDS:
        graph = K.model_graph((), K.ops_for(kind, ops), 4 if tier == 'thorough' else 3)
        for s, hist in graph.items():
            yield ['state', kind, list(hist)]
    yield ['ctor']
    for kind, n in sizes.sizes(tier):
        yield ['size', kind, n]


def tup(op):
    return tuple(tuple(x) if isinstance(x, list) else x for x in op)


def parent_probe(o, candidates):
    """Which of the candidates o navigates to (public members only)."""
    if isinstance(o, Item):
        return o.tier
    if isinstance(o, Tier):
        return o.igt
    if isinstance(o, Igt):
        return o.corpus
    for p in candidates:
        p.attributes['probe-attr'] = 'x'
        hit = o.get_attribute('probe-attr', inherit=True)
        del p.attributes['probe-attr']
        if hit:
            return p
    return None


def picture(kind, owner, c, objs, other):
    cand = [owner, other]
    return {
        'members': [id(x) for x in list(c)],
        'index': [id(c.get(i)) for i in ('a', 'b1', 'f1', 'zz')],
        'parents': {k: id(parent_probe(o, cand)) for k, o in objs.items()},
        'ids': {k: o.id for k, o in objs.items()},
        'attrs': {k: sorted(o.attributes.items()) for k, o in objs.items()},
        'types': {k: o.type for k, o in objs.items()},
    }


def rejected_ops(kind, state):
    n = len(state)
    for x in K.LABELS:
        if K.dup(state, x):
            yield ('append', x), XigtError
            yield ('add', x), XigtError
            for i in (0, 1, -1, 99):
                yield ('insert', i, x), XigtError
        for i in range(-n, n):
            if K.dup(state, x, skip=i % n):
                yield ('set', i, x), XigtError
                yield ('set', str(i), x), XigtError
        if x in 'an':
            for i in (n, n + 3, -n - 1):
                yield ('set', i, x), Exception
            yield ('setid', 'zz', x), Exception
        for i, y in enumerate(state):
            # identifiers are not positions
            if K.ID[y] and K.ID[y] == 'a' and not K.dup(state, x, skip=i):
                yield ('setid', 'a', x), Exception
        if not any(K.equal(x, y) for y in state):
            yield ('remove', x), Exception
    for k in (n, -n - 1, str(n), 'zz', 'zzz'):
        yield ('del', k), (KeyError, IndexError)
    for i in (n, -n - 1):
        yield ('pop', i), IndexError
    # what is no position at all
    for i in range(len(ODD)):
        for x in ('a', 'n', 'd') if n < 3 else ('a',):
            yield ('insert-odd', i, x), Exception
            if i not in NOTSET:
                yield ('set-odd', i, x), Exception
        if i not in NOTSET:
            yield ('del-odd', i), Exception
        yield ('pop-odd', i), Exception
    for f in FOREIGN:
        if f == HOLDS[kind]:
            continue
        yield ('f-append', f), XigtStructureError
        yield ('f-insert', f), XigtStructureError
        yield ('f-add', f), XigtStructureError
        yield ('f-extend', f), XigtStructureError
        if n:
            yield ('f-set', f), XigtStructureError
    yield ('setslice',), Exception
    for b in range(len(BAD_IDS)):
        for x in state[:1] if n < 3 else ():
            yield ('badid', x, b), ValueError
    if kind.endswith('.md'):
        yield ('md-assign',), XigtError
    # whole contents: the present and new members, one of them not acceptable
    for form in ('list', 'iter', 'gen'):
        for new in WHOLE:
            yield ('whole', form, new), XigtError
        for f in ('none', 'str', HOLDER[kind]) if form == 'list' else ('mc2',):
            for at in (0, 1, 9):
                yield ('whole-f', form, f, at), XigtStructureError
        for at in (0, 1, 2):
            if form == 'gen':
                yield ('whole-fails', at), Broken
    yield ('whole-no',), TypeError


WHOLE = ['aA', 'ada', 'nbad', 'ab*', '*n*', 'oAbd']      # *: all present members
HOLDER = {'tier': 'tier', 'igt': 'igt', 'corpus': 'corpus', 'metadata': 'metadata',
          'meta': 'meta', 'mc': 'item', 'corpus.md': 'meta', 'igt.md': 'tier',
          'tier.md': 'meta'}


class Broken(Exception):
    pass


def whole(kind, c, objs, op):
    if op[0] == 'whole':
        out = []
        for x in op[2]:
            out += list(c) if x == '*' else [objs[x]]
        own = [x.id for x in out if x.id]
        if len(set(own)) == len(own):       # nothing is repeated yet
            out.append(objs['a'])
            out.insert(0, objs['d'])
        form = op[1]
    else:
        out = [objs['b'], objs['n'], objs['o']]
        form = 'gen'
        if op[0] == 'whole-f':
            out.insert(op[3], FOREIGN.get(op[2], Item if kind != 'tier' else Tier)())
            form = op[1]
    if form == 'list':
        return out
    if form == 'iter':
        return iter(out)

    def gen():
        for i, x in enumerate(out):
            if op[0] == 'whole-fails' and i == op[1]:
                raise Broken
            yield x
    return gen()


def do(kind, owner, c, objs, op, stranger):
    name = op[0]
    if name == 'setid':
        c[op[1]] = objs[op[2]]
    elif name == 'insert-odd':
        c.insert(ODD[op[1]], objs[op[2]])
    elif name == 'set-odd':
        c[ODD[op[1]]] = objs[op[2]]
    elif name == 'del-odd':
        del c[ODD[op[1]]]
    elif name == 'pop-odd':
        c.pop(ODD[op[1]])
    elif name == 'f-append':
        c.append(stranger)
    elif name == 'f-insert':
        c.insert(0, stranger)
    elif name == 'f-add':
        c.add(stranger)
    elif name == 'f-extend':
        c.extend([stranger])
    elif name == 'f-set':
        c[0] = stranger
    elif name == 'setslice':
        c[0:1] = [objs['o']]
    elif name == 'badid':
        objs[op[1]].id = BAD_IDS[op[2]]
    elif name == 'md-assign':
        owner.metadata = Metadata(id='mm', metas=[Meta(id='x')])
    elif name == 'whole-no':
        setattr(owner, K.KINDS[kind][3] or 'metadata', 7)
    elif name.startswith('whole'):
        setattr(owner, K.KINDS[kind][3] or 'metadata', whole(kind, c, objs, op))
    else:
        K.r_apply(kind, owner, c, objs, op)


def run(case, ctx):
    if case[0] == 'size':
        return sizes.explore(case[1], case[2], ctx, 'refused')
    if case[0] == 'ctor':
        return ctors(ctx)
    _, kind, hist = case
    hist = tuple(tup(o) for o in hist)
    state = ()
    for op in hist:
        try:
            state = K.m_apply(state, op)
        except K.Reject as e:
            state = getattr(e, 'partial', state)
    ctx.states += 1
    for op, exc in rejected_ops(kind, state):
        moved = op[0] in ('append', 'insert', 'set', 'setid', 'remove')
        for elsewhere in (False, True) if moved else (False,):
            owner, c, objs = K.fresh(kind)
            for h in hist:
                try:
                    K.r_apply(kind, owner, c, objs, h)
                except Exception:
                    pass
            # pool objects not in the container may live somewhere else
            other = K.KINDS[kind][0]()
            oc = K.KINDS[kind][1](other)
            if elsewhere:
                for lab in K.LABELS:
                    if lab not in state and parent_probe(objs[lab], [owner]) is None:
                        try:
                            oc.append(objs[lab])
                        except XigtError:
                            pass
            stranger = (FOREIGN[op[1]]() if op[0].startswith('f-') else None)
            s_par = (parent_probe(stranger, [owner])
                     if hasattr(stranger, 'attributes') else None)
            before = picture(kind, owner, c, objs, other)
            before_o = [id(x) for x in list(oc)]
            try:
                do(kind, owner, c, objs, op, stranger)
                raised = None
            except Exception as e:
                raised = e
            what = '%s with members %r, %r' % (kind, state, op)
            if raised is None:
                raise Violation(what + ': accepted, must be rejected')
            if not isinstance(raised, exc):
                raise Violation(what + ': raised %r instead of %r' % (raised, exc))
            after = picture(kind, owner, c, objs, other)
            if before != after:
                bad = [k for k in before if before[k] != after[k]]
                raise Violation(what + ': rejected (%r) but changed %s'
                                % (raised, ', '.join(bad)))
            if [id(x) for x in list(oc)] != before_o:
                raise Violation(what + ': changed another container')
            if hasattr(stranger, 'attributes') and \
                    parent_probe(stranger, [owner]) is not s_par:
                raise Violation(what + ': the rejected object was adopted')
            err = K.observe(kind, owner, c, objs, state)
            if err:
                raise Violation(what + ': afterwards ' + err)
            ctx.transitions += 1
            ctx.traces += 1
            ctx.ev((kind, state, op, elsewhere))
            ctx.out(op[0] + ' -> ' + type(raised).__name__)
    ctx.sample([kind, list(state)])


def ctors(ctx):
    """Constructors and setters that must refuse their arguments."""
    def must(exc, fn, what):
        try:
            r = fn()
        except exc:
            ctx.ev(what)
            ctx.out('constructor refused')
            return
        except Exception as e:
            raise Violation('%s: raised %r, expected %r' % (what, e, exc))
        raise Violation('%s: accepted: %r' % (what, r))
    for b in BAD_IDS:
        for cls in (XigtCorpus, Igt, Tier, Item, Metadata, Meta):
            must(ValueError, lambda: cls(id=b), '%s(id=%r)' % (cls.__name__, b))
    for b in TAIL_IDS:
        for cls in (XigtCorpus, Igt, Tier, Item, Metadata, Meta):
            for how in ('constructor', 'setter'):
                x = cls(id='z')
                try:
                    if how == 'setter':
                        x.id = b
                    else:
                        cls(id=b)
                except ValueError:
                    if x.id != 'z':
                        raise Violation('%s: refused id %r, but has it' % (cls.__name__, b))
                    ctx.out('id refused')
                else:
                    ctx.fail('%s: %s accepted the id %r' % (cls.__name__, how, b),
                             key='id-accepted %r' % b)
                ctx.ev((how, cls.__name__, b))
    for n in ['', '1', '1a', '-a', '.a', 'a b', 'a:b', 'a/b', ' a', '{u}a', 'a\tb', '<', 'a\n']:
        must(ValueError, lambda: MetaChild(n), 'MetaChild(%r)' % n)
    for cls in (Tier, Item):
        vals = (None, '', 'x', 's[0:1]')
        for a, c in itertools.product(vals, repeat=2):
            if not (a or c):
                continue
            for own in ({}, {'alignment': a}, {'content': c}):
                must(XigtError, lambda: cls(segmentation='s', alignment=a, content=c,
                                            attributes=dict(own)),
                     '%s(segmentation, alignment=%r, content=%r, attributes=%r)' % (
                         cls.__name__, a, c, own))
    for mk, a, b in ((Tier, 'items', Item), (Igt, 'tiers', Tier),
                     (XigtCorpus, 'igts', Igt), (Metadata, 'metas', Meta)):
        must(XigtError, lambda: mk(**{a: [b(id='x'), b(id='x')]}),
             '%s(%s with duplicate ids)' % (mk.__name__, a))
        must(XigtStructureError, lambda: mk(**{a: [MetaChild('x')]}),
             '%s(%s of a wrong kind)' % (mk.__name__, a))
    for mk in (Tier, Igt, XigtCorpus):
        must(XigtError, lambda: mk(metadata=Metadata()),
             '%s(metadata=Metadata())' % mk.__name__)
        must(XigtError, lambda: mk(metadata=[Metadata(id='x'), Metadata(id='x')]),
             '%s(metadata duplicate ids)' % mk.__name__)
        must(XigtStructureError, lambda: mk(metadata=[Meta(id='x')]),
             '%s(metadata of a wrong kind)' % mk.__name__)
    for cls in (Tier, Item, Igt, XigtCorpus, Metadata, Meta):
        must(ValueError, lambda: cls().get_attribute(None),
             '%s.get_attribute(None)' % cls.__name__)
    must(XigtError, lambda: Metadata(text=[Meta()], metas=[Meta()]), 'Metadata(text, metas)')
