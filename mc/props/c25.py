"""C25: xigt query prints exactly the results and counts asked for."""
import itertools
import os
import re
from mc import cli, sizes, xpath, xmlref
from mc.core import Violation
from mc.dom import corpus, igt, tier, item, metadata, meta, mc, build, full_igt
from mc.props.c19 import P, U, F, with_preds
from xigt import main as xigt_main
from xigt.scripts import xigt_query

ID = 'C25'
LEVEL = 'exploration'
IMPORTS = ('xigt', 'xigt.main')
RULE = ('(a) every query out of 40 x action (find, unique, count), every pair of query and '
        'subquery for tally, x 6 documents; (b) every description out of 30 x action x query; '
        '(c) all sequences of up to 3 (thorough 4) actions, with and without descriptions; (d) '
        'all sequences of up to 3 files x file descriptions x --basename; (e) n results, groups, '
        'members, files, actions, characters (n up to 257) split at every (boundary) position; through both entry '
        'points, with short and long options and any verbosity; complete standard output '
        'compared with a reference (reference path evaluator, grouping and formatting); '
        'distinct = distinct (document, arguments)')
ASSUMPTIONS = ['descriptions do not use positional fields, nor format specifications other '
               'than !s and !r (strings: alignment)',
               'addresses in the representation of objects are ignored',
               'subqueries are asked of objects']
A = 'http://ex.org/a'


def docs():
    g1 = full_igt('g1')
    g1['type'] = 'T'
    g1['md'] = [metadata(meta(mc('subject', ns=A, text='Japanese',
                                 attrs={'{%s}code' % A: 'jpn'}), type='lang', id='m1'),
                         type='xigt-meta')]
    g1['kids'].append(tier('o', item('o1', '{odd} "q" {0} {query}'), item('o2', 'the tr'),
                           item(None, 'ab cd'), type='{type}'))
    rich = corpus(g1, igt('g2', tier('p', item('p1', 'ab cd'), item('p2', 'zz'),
                                     type='phrases')),
                  igt('g3'), igt(None, tier(None, item('p1', 'zz'), type='phrases')),
                  id='c', nsmap={'a': A})
    # grouping: twelve igts with 1..3 words from a small vocabulary
    many = corpus(*[igt('n%d' % i, tier('w', *[item('w%d' % j, 'cat dog ant'.split()[(i * j) % 3])
                                              for j in range(1 + i % 3)], type='words'),
                        type='AB'[i % 2] if i % 5 else None) for i in range(12)])
    hundred = corpus(*[igt('h%d' % i, tier('t', *[item('i%d' % j, str(j % 3))
                                                 for j in range(20)])) for i in range(6)])
    # empty and odd values
    odd = corpus(igt('e1', tier('t', item('i1', attrs={'k': ''}), item('i2', ' '), item('i3'),
                                item('i4', 'x\ty'), item('i5'), item('i6', 'None'),
                                item('i7', ' x '), type=''), type=''),
                 igt('e2', tier('u', type=' '), type=' '), igt('e3', type='None'),
                 igt('e4', type=''), igt('e5', tier('v', type='t'), tier('w', type='T')),
                 id='c', md=[metadata(meta(mc('subject', text='None')), type='')])
    return [rich, many, corpus(), corpus(igt('only', type='x')), hundred, odd]


QUERIES = [P('', 'igt'), P('', 'igt', 'tier'), P('', 'igt', 'tier', 'item'), P('//', 'item'),
           P('//', 'tier'), P('/', 'igt', '@id'), P('//', 'item', '@id'),
           P('//', 'item', 'value()'), P('//', 'item', 'text()'), P('', 'igt', 'tier', '@type'),
           P('', 'igt', '@type'), P('//', '*'), P('', '.'), P('', '..'), P('', 'nosuch'),
           P('//', 'metadata'), P('//', 'meta', '@id'), P('//', 'subject', 'text()'),
           P('//', 'a:subject'), P('//', 'item', '..'), P('//', 'tier', '..'),
           P('//', 'item', '..', '..'), P('//', 'item', '..', '@type'),
           with_preds(P('//', 'item'), [('eq', P('', 'value()'), 'zz')]),
           with_preds(P('//', 'item'), [('eq', P('', 'value()'), '{odd} "q" {0} {query}')]),
           with_preds(P('', 'igt'), [('ex', P('', 'tier'), '')]),
           with_preds(P('', 'igt'), [('eq', P('', 'tier', '@type'), 'phrases')]),
           with_preds(P('', 'igt'), [('ne', P('', '@id'), '{match}')]),
           P('//', 'item', F('referent')), P('//', 'item', F('referrer', 'segmentation')),
           P('//', 'item', F('referent'), '@id'),
           P('', 'igt', U(P('', '@id'), P('', '@type'))),
           P('', 'igt', U(P('', 'tier'), P('', 'metadata')))]
SUBS = [P('', '@id'), P('', '@type'), P('', '.'), P('', '..'), P('', '..', '@type'), P('', '*'),
        P('', 'tier', 'item', 'value()'), P('', 'tier', '@type'), P('', 'item', '@id'),
        P('', '.', '//item', 'value()'), P('', 'nosuch'), P('', 'value()'),
        P('', U(P('', '@id'), P('', '@type'))), P('', 'tier'),
        with_preds(P('', '.', '//item'), [('eq', P('', 'value()'), 'dog')]),
        with_preds(P('', '.', '//item'), [('eq', P('', 'text()'), 'zz')])]
DESCS = ['', 'x', '{query}', '{subquery}', '{match}', '{match!s}', '{match!r}', '<{match!s}>',
         '{query}{subquery}{match!s}', '{other}', '{other!s}', '{other!r:>3}', '{other:x}',
         '{other.a[0]}', '{{query}}', '{{', '}}', '{{}}', '{{{query}}}', '{{x}} {query}',
         '{match!s}\t{match!s}', 'a {query} {unknown} {subquery}', '\u00e9 {query}', '%s %d',
         '{query:>30}|', '{query:<5.3}|', '{ query }', '{Query}', 'tab\\t', '{query!r}',
         '\n{query}\n', '{query[0]}{match!s}', '<{query[0]!r:>5}{other[0]}>',
         '{query.__class__.__name__} {query.upper.__name__[0]}']
FDESCS = [None, '', 'file', '{filename}', '== {filename} ==', '{filename!r}', '{filename:>40}',
          '{{filename}}', '{{{filename}}}', '\u00e9 {filename} {filename}']
ACTIONS = ['find', 'unique', 'count', 'tally']
AT = re.compile(r' at \d+>')


# ------------------------------------------------------------- reference

def fields(s, **kw):
    """Format s; what does not name a known field stays as it is."""
    out, i = [], 0
    while i < len(s):
        if s.startswith('{{', i) or s.startswith('}}', i):
            out.append(s[i])
            i += 2
        elif s[i] == '{':
            j = s.index('}', i)
            body = s[i + 1:j]
            spec = conv = ''
            name = body
            if ':' in name:
                name, spec = name.split(':', 1)
            if '!' in name:
                name, conv = name.split('!', 1)
            head = re.match(r'[^.[]*', name).group()
            if head in kw:
                v = kw[head]
                for at, ix in re.findall(r'\.([^.[]*)|\[([^]]*)\]', name[len(head):]):
                    v = v[int(ix)] if ix else getattr(v, at)
                v = repr(v) if conv == 'r' else str(v) if conv == 's' else v
                out.append(format(v, spec))
            else:
                out.append('{' + body + '}')
            i = j + 1
        else:
            out.append(s[i])
            i += 1
    return ''.join(out)


class Group(tuple):
    def __str__(self):
        return ', '.join(str(x) for x in self)


def key(x):
    return x if isinstance(x, str) else id(x)


def expected(xc, agenda):
    """agenda: [(action, query, subquery, description or None)] -> lines"""
    lines, counts = [], []
    for action, q, sq, desc in agenda:
        res = xpath.evaluate(q, [xc])
        kw = dict(query=xpath.render(q), subquery=xpath.render(sq) if sq else '')
        if desc is None:
            desc = '{query}\t{match!s}' if action != 'tally' else \
                '{query}\t{subquery}\t{match!s}'
        if action == 'find':
            lines += ['  ' + fields(desc, match=m, **kw) for m in res]
        elif action == 'count':
            counts.append((len(res), fields(desc, match='', **kw)))
        elif action == 'unique':
            counts.append((len(set(key(m) for m in res)), fields(desc, match='', **kw)))
        else:
            groups = []
            for m in res:
                g = Group(xpath.evaluate(sq, [m]))
                for e in groups:
                    if list(map(key, e[0])) == list(map(key, g)):
                        e[1] += 1
                        break
                else:
                    groups.append([g, 1])
            groups.sort(key=lambda e: -e[1])
            counts += [(n, fields(desc, match=g, **kw)) for g, n in groups]
    width = max([len(str(n)) for n, _ in counts], default=0)
    return lines + [' %*d\t%s' % (width, n, d) for n, d in counts]


def arguments(agenda, short):
    out = []
    for action, q, sq, desc in agenda:
        out += ['-' + action[0] if short else '--' + action, xpath.render(q)]
        if action == 'tally':
            out.append(xpath.render(sq))
        if desc is not None:
            out += ['-d', desc] if short else ['--description', desc]
    return out


class World:
    def __init__(self, ctx):
        self.d = ctx.tmp()
        os.mkdir(os.path.join(self.d, 'sub'))
        self.ctx = ctx
        self.n = 0
        self.files, self.corpora, self.before = [], [], []
        for i, s in enumerate(docs()):
            p = os.path.join(self.d, 'sub', ['rich.xml', 'many', 'e {x}.xml', 'o.xml',
                                             'h.xml', 'odd.xml'][i])
            data = xmlref.write(s).encode()
            with open(p, 'wb') as fh:
                fh.write(data)
            self.files.append(p)
            self.before.append(data)
            self.corpora.append(build(s))

    def execute(self, agenda, which, fdesc=None, base=False):
        self.n += 1
        try:
            parts = []
            for w in which:
                name = self.files[w]
                if base:
                    name = os.path.basename(name)
                parts.append(fields(fdesc or '{filename}:', filename=name) + '\n')
                parts += [line + '\n' for line in expected(self.corpora[w], agenda)]
                parts.append('\n')
        except xpath.Undef:
            return
        opts = arguments(agenda, self.n % 2)
        glob = []
        if fdesc is not None:
            glob += ['-D', fdesc] if self.n % 3 else ['--file-description=' + fdesc]
        if base:
            glob.append('--basename')
        glob += [[], ['-v'], ['-vv']][self.n % 3]
        files = [self.files[w] for w in which]
        args = glob + opts + files if self.n % 4 < 2 else files + opts + glob
        if self.n % 2:
            r = cli.run(xigt_query.main, args, both=False)
        else:
            r = cli.run(lambda a: xigt_main.main(), ['query'] + args, both=False)
        want = AT.sub(' at N>', ''.join(parts))
        got = AT.sub(' at N>', r.out)
        if r.exc is not None or r.code:
            raise Violation('%r: %r' % (args, r))
        if got != want:
            raise Violation('%r prints\n%s\nexpected\n%s' % (args, got[:1500], want[:1500]))
        self.ctx.ev((tuple(which), repr(agenda), fdesc, base))
        self.ctx.out('results' if len(want.splitlines()) > 2 * len(which) else 'no results')

    def check_files(self):
        for p, b in zip(self.files, self.before):
            with open(p, 'rb') as fh:
                if fh.read() != b:
                    raise Violation('the query changed ' + p)


def cases(tier):
    for q in range(len(QUERIES)):
        yield ['query', q]
    for q in range(len(QUERIES)):
        yield ['desc', q]
    for a in range(len(steps())):
        yield ['agenda', a]
    for n in range(3):
        yield ['files', n]
    for n in sizes.SIZES if tier == 'thorough' else LADDER:
        for part in range(sizes.parts(n)):
            yield ['size', n, part]


def steps():
    I, W = P('', 'igt', '@type'), P('//', 'item', 'value()')
    return [('find', I, None, None), ('find', P('', 'igt'), None, 'f {match!s}'),
            ('count', P('//', 'item'), None, None), ('count', I, None, 'c {query}'),
            ('unique', W, None, None), ('unique', I, None, '{match}u'),
            ('tally', P('', 'igt'), P('', '@type'), None),
            ('tally', P('//', 'item'), P('', 'value()'), 't {match!s}'),
            ('count', P('', 'nosuch'), None, '{unknown} {}'[:9])]


LADDER = (5, 9, 10, 11, 17, 33, 65, 99, 100, 101, 129, 257)


def large(n, part, w):
    """n results, groups, members of groups, files, actions or characters."""
    T, I, V = P('', 'igt', '@type'), P('', 'igt'), P('//', 'item', 'value()')
    for p in sizes.positions(n, part) + [n]:
        for typ in (lambda i: 'ab'[i < p], lambda i: 'T%d' % (i % (p + 1)),
                    lambda i: 'T%d' % max(i - p, 0), lambda i: None if i < p else 'x'):
            s = corpus(*[igt('g%d' % i, tier('t', item('i1', 'v%d' % (i * 7 % (p + 1)))),
                             type=typ(i)) for i in range(n)])
            with open(w.files[0], 'wb') as fh:
                fh.write(xmlref.write(s).encode())
            w.corpora[0] = build(s)
            w.execute([('tally', I, P('', '@type'), None), ('unique', T, None, None),
                       ('count', I, None, 'all')], [0])
            w.execute([('tally', P('//', 'item'), P('', 'value()'), '{match!s}'),
                       ('find', T, None, None)], [0])
            w.execute([('unique', V, None, None), ('find', V, None, '{match}')], [0])
        # members of one result
        s = corpus(*[igt('g%d' % i, tier('t', *[item('i%d' % j, 'v%d' % (j % 3))
                                               for j in range(p if i else n)]))
                     for i in range(3)])
        with open(w.files[0], 'wb') as fh:
            fh.write(xmlref.write(s).encode())
        w.corpora[0] = build(s)
        w.execute([('tally', I, P('', 'tier', 'item', 'value()'), None),
                   ('tally', P('', 'igt', 'tier'), P('', 'item', 'value()'), 'g {match!s}')], [0])
        s = corpus(igt('g', type=('x' * p) + 'y' + 'x' * (n - p)),
                   igt('h', type='x' * n), igt('i', type=('x' * p) + 'Y' + 'x' * (n - p)))
        with open(w.files[0], 'wb') as fh:
            fh.write(xmlref.write(s).encode())
        w.corpora[0] = build(s)
        w.execute([('tally', I, P('', '@type'), None), ('unique', T, None, None)], [0])
        # files and actions
        if n <= 129:
            w.execute([('count', I, None, None)], [2] * p + [1] + [3] * (n - p))
            w.execute([('count', I, None, 'a')] * p + [('find', T, None, None)] +
                      [('unique', T, None, 'u')] * (n - p), [1])


def run(case, ctx):
    w = World(ctx)
    if case[0] == 'size':
        return large(case[1], case[2], w)
    if case[0] == 'query':
        q = QUERIES[case[1]]
        for f in range(len(w.files)):
            for a in ('find', 'count', 'unique'):
                w.execute([(a, q, None, None)], [f])
            for sq in SUBS:
                w.execute([('tally', q, sq, None)], [f])
        ctx.sample(xpath.render(q))
    elif case[0] == 'desc':
        q = QUERIES[case[1]]
        for f in range(len(w.files) if ctx.thorough else 2):
            for d in DESCS:
                if case[1] > 11 and not ctx.thorough and DESCS.index(d) % 4 != case[1] % 4:
                    continue
                for a in ('find', 'count', 'unique'):
                    if a == 'find' and '{match:' in d:
                        continue
                    w.execute([(a, q, None, d)], [f])
                for sq in SUBS if ctx.thorough else SUBS[case[1] % 4::4]:
                    w.execute([('tally', q, sq, d)], [f])
    elif case[0] == 'agenda':
        st = steps()
        if case[1] == 0:
            for f in range(len(w.files)):
                w.execute([], [f])
        for n in (1, 2, 3, 4) if ctx.thorough else (1, 2, 3):
            for rest in itertools.product(st, repeat=n - 1):
                w.execute([st[case[1]]] + list(rest), [w.n % 2])
                if n < 3 or ctx.thorough and n < 4:
                    for f in range(len(w.files)):
                        w.execute([st[case[1]]] + list(rest), [f])
    else:
        st = steps()
        for which in itertools.product(range(len(w.files)), repeat=case[1] + 1):
            for k, fd in enumerate(FDESCS):
                for base in (False, True):
                    if case[1] == 2 and (sum(which) + k) % (1 if ctx.thorough else 5):
                        continue
                    w.execute([st[(k + sum(which)) % 9], st[(3 * k + 7) % 9]], which, fd, base)
    w.check_files()
