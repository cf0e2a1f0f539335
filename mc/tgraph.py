"""Small tier graphs: tiers with reference attributes between them, items with
references that follow a pattern; shared by C11, C12 and C13."""
import itertools
from mc import algn
from xigt import Igt, Tier, Item

# tier ids chosen so that one is a prefix / a character of another
NAMES = [('a', 'ab', 'b'), ('x-y', 'x', 'y'), ('t1', 't11', 't')]
NAMES4 = [('a', 'ab', 'b', 'ba'), ('w', 'p', 'wp', 'g.1')]

# how the n-th item of a tier refers to the items of the tier's target: list per
# item of target item positions
PATTERNS = [
    [[0], [1]],            # one to one
    [[0], [0]],            # both to the first
    [[0, 1], []],          # one spans both
    [[1], [0]],            # crossing
    [[], [1]],             # second only
    [[0], [0, 1]],         # overlapping
]


class G:
    """Description of an IGT: order of tiers, attrs[t][ra] = target tier,
    items[t] = [iid], refs[iid][ra] = [target iids]."""
    def __init__(self, names, attrs, pattern, anon=False):
        self.names = list(names)
        self.attrs = {t: dict(a) for t, a in zip(names, attrs)}
        self.items = {t: ['%s_%d' % (t, k) for k in (1, 2)] for t in names}
        if anon:
            # the last item of each tier has no id
            for t in names:
                self.items[t].append('?%s' % t)
        self.refs = {}
        for k, t in enumerate(names):
            pat = PATTERNS[pattern[k % len(pattern)]]
            for n, i in enumerate(self.items[t]):
                self.refs[i] = {}
                for m, (ra, tgt) in enumerate(sorted(self.attrs[t].items())):
                    ps = pat[n % 2] if m == 0 else pat[(n + m) % 2]
                    if tgt in self.items and ps:
                        self.refs[i][ra] = [self.items[tgt][p] for p in ps]

    def text(self, i, ra):
        ids = self.refs[i][ra]
        if len(ids) > 1:
            return '%s[0:1]+%s[1:2],%s' % (ids[0], ids[1], ids[1])
        return ids[0]

    def build(self):
        return Igt(id='g', tiers=[
            Tier(id=t, type='t', attributes=self.attrs[t], items=[
                self.item(i) for i in self.items[t]]) for t in self.names])

    def item(self, i):
        it = Item(id=None if i[0] == '?' else i, text='xy',
                  attributes={ra: self.text(i, ra) for ra in self.refs[i]})
        it.label = i
        return it

    def show(self):
        return {'tiers': [(t, self.attrs[t]) for t in self.names],
                'items': {i: self.refs[i] for t in self.names for i in self.items[t]}}
