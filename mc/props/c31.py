"""C31: deprecated names do what their replacements do; commands are reachable."""
import itertools
import os
import subprocess
import sys
import warnings
from mc import cli, stubs, xmlref
from mc.core import Violation, catch
from mc.dom import corpus, igt, tier, item, metadata, meta, mc, build, snap, diff, full_igt, parent
import xigt
from xigt import XigtCorpus, Igt, Tier, Item, Metadata, Meta, MetaChild, ref
from xigt import main as xigt_main
from xigt.errors import XigtAttributeError, XigtWarning

ID = 'C31'
LEVEL = 'exploration'
IMPORTS = ('xigt', 'xigt.ref', 'xigt.main')
RULE = ('all sequences of up to 4 (thorough 5) operations add, add_list and text= with valid, '
        'duplicate and wrong arguments on each kind of container, next to the same '
        'sequence of append, extend and metas=; all expressions of up to 3 selections out of 9 '
        'with all separators x items with and without values for the functions of xigt.ref; '
        'all tiers with and without target for get_aligned_tier; items of all kinds for '
        'get_content; the command line with every command; distinct = distinct sequence or '
        'expression')
ASSUMPTIONS = ['expressions are well-formed; separators of whitespace are not kept by '
               'get_alignment_expression_spans']


def members(kind):
    mk = {'xc': lambda i: Igt(id=i), 'igt': lambda i: Tier(id=i), 'tier': lambda i: Item(id=i),
          'md': lambda i: Meta(id=i), 'meta': lambda i: MetaChild('n%s' % i),
          'mc': lambda i: MetaChild('n%s' % i)}[kind]
    top = {'xc': XigtCorpus, 'igt': lambda: Igt(id='g'), 'tier': lambda: Tier(id='t'),
           'md': lambda: Metadata(id='m'), 'meta': lambda: Meta(id='m'),
           'mc': lambda: MetaChild('n')}[kind]
    return top, mk


KINDS = ['xc', 'igt', 'tier', 'md', 'meta', 'mc']
ARGS = [('one', ['a']), ('one', ['b']), ('one', [None]), ('one', ['wrong']),
        ('list', []), ('list', ['a', 'c']), ('list', ['c', 'c']), ('list', ['d', 'wrong', 'e']),
        ('gen', ['e', None])]


def cases(tier):
    for k in KINDS:
        for a in range(len(ARGS)):
            yield ['ops', k, a]
    for s in range(len(SELS)):
        yield ['expr', s]
    yield ['text']
    yield ['aligned']
    yield ['content']
    yield ['warn']
    yield ['imports']
    for c in ('export', 'import', 'partition', 'process', 'query', 'sort', 'validate', 'nosuch'):
        yield ['command', c]


def run(case, ctx):
    globals()['do_' + case[0]](ctx, *case[1:])


def outcome(f):
    """('ok', result) or the exception's type."""
    with warnings.catch_warnings():
        warnings.simplefilter('ignore')
        try:
            return 'ok', f()
        except Exception as e:
            return type(e).__name__, None


def do_ops(ctx, kind, first):
    top, mk = members(kind)
    depth = 5 if ctx.thorough else 4
    args = ARGS[:]

    def value(spec):
        return [Version if x == 'wrong' else mk(x) for x in spec]

    for n in range(1, depth + 1):
        for seq in itertools.product(range(len(args)), repeat=n - 1):
            seq = (first,) + seq
            old, new = top(), top()
            for step, k in enumerate(seq):
                how, spec = args[k]
                va, vb = value(spec), value(spec)
                if how == 'one':
                    a = outcome(lambda: old.add(va[0]))
                    b = outcome(lambda: new.append(vb[0]))
                else:
                    a = outcome(lambda: old.add_list(iter(va) if how == 'gen' else va))
                    b = outcome(lambda: new.extend(iter(vb) if how == 'gen' else vb))
                ctx.transitions += 1
                if a != b:
                    raise Violation('%s %r: add gives %r, append %r' % (
                        kind, [args[x] for x in seq[:step + 1]], a, b))
                df = diff(snap(new), snap(old))
                if df:
                    raise Violation('%s %r: %s' % (kind, [args[x] for x in seq[:step + 1]], df))
                for x in old:
                    if parent(x) is not old:
                        raise Violation('%s: the parent of an added member is %r' % (
                            kind, parent(x)))
                for i in 'abcde':
                    got, want = old.get(i), new.get(i)
                    if (got is None) != (want is None) or got is not None and \
                            not any(got is x for x in old):
                        raise Violation('%s %r: get(%r) is %r, with append %r' % (
                            kind, [args[x] for x in seq[:step + 1]], i, got, want))
            ctx.ev((kind, seq))
            ctx.sample([kind] + [args[k] for k in seq])
            ctx.out('ok' if a[0] == 'ok' else 'refused')


Version = object()


# ----------------------------------------------------------- expressions

SELS = [('a', []), ('b', []), ('n', []), ('e', []), ('a', [(0, 1)]), ('a', [(1, 3)]),
        ('b', [(0, 2), (1, 4)]), ('n', [(0, 1)]), ('a', [(-2, 9), (0, 0), (2, 1)])]
TEXTS = {'a': 'abc', 'b': 'x y z', 'n': None, 'e': ''}
SEPS = [',', '+']


def expressions():
    for n in (1, 2, 3):
        for ss in itertools.product(SELS, repeat=n):
            for ds in itertools.product(SEPS, repeat=n - 1):
                for inner in SEPS:
                    yield ss, ds, inner


def do_expr(ctx, first):
    t = Tier(id='t', items=[Item(id=i, text=x) for i, x in TEXTS.items()])
    g = Igt(id='g', tiers=[t])
    join = {',': ' ', '+': ''}
    for ss, ds, inner in expressions():
        if ss[0] is not SELS[first]:
            continue
        expr, want, spans = '', '', []
        for k, (i, rs) in enumerate(ss):
            if k:
                expr += ds[k - 1]
                want += join[ds[k - 1]]
                spans.append(ds[k - 1])
            expr += i
            v = TEXTS[i] or ''
            if rs:
                expr += '[' + inner.join('%d:%d' % r for r in rs) + ']'
                want += join[inner].join(v[a:b] for a, b in rs)
                for j, r in enumerate(rs):
                    spans += ([inner] if j else []) + [(i,) + r]
            else:
                want += v
                spans.append(i)
        checks = [
            ('resolve_alignment_expression', lambda: ref.resolve_alignment_expression(expr, t),
             want),
            ('resolve', lambda: ref.resolve(t, expr), want),
            ('xigt.resolve', lambda: xigt.resolve(t, expr), want),
            ('get_alignment_expression_ids', lambda: ref.get_alignment_expression_ids(expr),
             [i for i, _ in ss]),
            ('get_alignment_expression_spans', lambda: ref.get_alignment_expression_spans(expr),
             spans)]
        # one selection at a time
        if len(ss) == 1:
            i, rs = ss[0]
            sel = expr[len(i):]
            checks += [('resolve_alignment %r' % sel, lambda: ref.resolve_alignment(t, i, sel),
                        want),
                       ('resolve_alignment []', lambda: ref.resolve_alignment(t, i, '[]'), ''),
                       ('resolve_alignment with separators', lambda: ref.resolve_alignment(
                           t, i, sel, plus='<+>', comma='<,>'),
                        {',': '<,>', '+': '<+>'}[inner].join(
                            (TEXTS[i] or '')[a:b] for a, b in rs) if rs else want)]
        # other separators
        if all(len(rs) < 2 for _, rs in ss):
            alt = ''
            for k, (i, rs) in enumerate(ss):
                v = TEXTS[i] or ''
                alt += ('' if not k else {',': '<,>', '+': '<+>'}[ds[k - 1]]) + (
                    v[rs[0][0]:rs[0][1]] if rs else v)
            checks.append(('resolve_alignment_expression with separators',
                           lambda: ref.resolve_alignment_expression(expr, t, plus='<+>',
                                                                    comma='<,>'), alt))
        for name, f, w in checks:
            got = f()
            if got != w:
                raise Violation('%s(%r): %r, expected %r' % (name, expr, got, w))
        ctx.ev(expr)
        ctx.out('expression')
        # an item that does not exist
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            got = ref.resolve_alignment_expression(expr + '+zz', t)
        if got != want or [w.category for w in ws if issubclass(w.category, XigtWarning)] != [
                XigtWarning]:
            raise Violation('resolve_alignment_expression(%r): %r, %r' % (expr + '+zz', got, ws))
    for e in ('', None):
        if ref.get_alignment_expression_spans(e) != []:
            raise Violation('spans of %r' % e)


# ---------------------------------------------------------- metadata text

def do_text(ctx):
    for k in range(4):
        for how in ('list', 'gen', 'tuple', 'own', 'equal'):
            for start in range(3):
                a, b = Metadata(), Metadata()
                for x in (a, b):
                    x.extend(Meta(id='s%d' % i) for i in range(start))
                ma = [Meta(id='m%d' % i, text='t%d' % i) for i in range(k)]
                mb = [Meta(id='m%d' % i, text='t%d' % i) for i in range(k)]
                if how == 'equal':  # other objects with the same contents
                    ma, mb = ([Meta(id=y.id) for y in x] for x in (a, b))
                expect = list(a) if how == 'own' else list(ma)

                def val(x, m):
                    return {'gen': iter(m), 'tuple': tuple(m), 'own': x}.get(how, m)
                ra = outcome(lambda: setattr(a, 'text', val(a, ma)))
                rb = outcome(lambda: setattr(b, 'metas', val(b, mb)))
                if ra[0] == 'ok' and [id(x) for x in a] != [id(x) for x in expect]:
                    raise Violation('text= keeps other objects than those assigned: %r' % how)
                if ra != rb or diff(snap(b), snap(a)):
                    raise Violation('text= and metas= differ: %r %r' % (snap(a), snap(b)))
                t = outcome(lambda: a.text)
                if t[0] != 'ok' or len(t[1]) != len(a.metas) or any(
                        x is not y for x, y in zip(t[1], a.metas)):
                    raise Violation('text is %r, metas %r' % (t, a.metas))
                for change in (lambda x: x.clear(), lambda x: x.append(Meta(id='new')),
                               lambda x: x.reverse()):
                    for get in (lambda: a.text, lambda: a.metas):
                        before = snap(a)
                        change(get())
                        if snap(a) != before:
                            raise Violation('changing the list got from text or metas '
                                            'changes the metadata')
                ctx.ev((k, how, start))
        a = outcome(lambda: Metadata(id='x', type='y', text=[Meta(text='q%d' % i)
                                                             for i in range(k)]))
        b = Metadata(id='x', type='y', metas=[Meta(text='q%d' % i) for i in range(k)])
        if a[0] != 'ok' or diff(snap(b), snap(a[1])):
            raise Violation('Metadata(text=[...]) differs from metas=[...]: %r' % (a,))
    for s in ('', 'x', 'a b\n', '\u00e9'):
        a = outcome(lambda: Metadata(text=s))
        if a[0] != 'ok' or diff(snap(Metadata(metas=[Meta(text=s)])), snap(a[1])):
            raise Violation('Metadata(text=%r): %r' % (s, a))
    a = outcome(lambda: Metadata(text='x', metas=[Meta()]))
    if a[0] != 'XigtError':
        raise Violation('text and metas together: %r' % (a,))
    ctx.out('text')


def do_aligned(ctx):
    for at, val, exists, inigt in itertools.product(
            ('alignment', 'segmentation', 'content', 'other'), (None, 'a', 'b', 'gone'),
            (True, False), (True,)):
        b = Tier(id='b', attributes={at: val} if val else {})
        a = Tier(id='a')
        g = Igt(id='g', tiers=[a, b] if exists else [b])
        for ask in ('alignment', 'segmentation', 'content', 'other'):
            r = outcome(lambda: ref.get_aligned_tier(b, ask))
            if ask != at or val is None:
                want = ('XigtAttributeError', None)
            else:
                want = ('ok', {'a': a if exists else None, 'b': b, 'gone': None}[val])
            if r[0] != want[0] or r[1] is not want[1]:
                raise Violation('get_aligned_tier(%s=%r, %s): %r, expected %r' % (
                    at, val, ask, r, want))
            ctx.ev((at, val, exists, ask))
    ctx.out('aligned')


def do_content(ctx):
    for texts in itertools.product([None, '', 'ab cd'], repeat=2):
        for at in [{}, {'content': 'p1'}, {'segmentation': 'p1[1:2]'}, {'alignment': 'p1'},
                   {'content': 'p1[0:1]', 'alignment': 'p1'}, {'content': 'zz'},
                   {'segmentation': 'p1,p2[0:1]'}, {'content': 'p1', 'segmentation': 'p2'}]:
            g = build(igt('g', tier('p', item('p1', texts[0]), item('p2', 'q')),
                          tier('w', item('w1', texts[1], attrs=at),
                               attrs={k: 'p' for k in at})))
            w = g['w']['w1']
            a, b = outcome(w.get_content), outcome(w.value)
            if a != b:
                raise Violation('get_content %r, value %r' % (a, b))
            for r in (True, False):
                if outcome(lambda: w.get_content(resolve=r)) != b:
                    raise Violation('get_content(resolve=%r) differs from value()' % r)
            ctx.ev((texts, repr(at)))
    ctx.out('content')


def do_warn(ctx):
    """Every deprecated member warns, every time it is used; the others never."""
    def warned(f):
        with warnings.catch_warnings(record=True) as ws:
            warnings.simplefilter('always')
            f()
        return [w.category for w in ws]

    it = Tier(items=[Item(id='a', text='x')])[0]
    old = {'Metadata.text': lambda: Metadata().text,
           'Metadata.text =': lambda: setattr(Metadata(), 'text', [Meta()]),
           'Metadata(text=[])': lambda: Metadata(text=[]),
           'Metadata(text=metas)': lambda: Metadata(text=[Meta()]),
           'Metadata(text=str)': lambda: Metadata(text='x'),
           'get_content': it.get_content}
    new = {'metas': lambda: Metadata().metas,
           'metas =': lambda: setattr(Metadata(), 'metas', [Meta()]),
           'Metadata(metas=)': lambda: Metadata(metas=[Meta()]),
           'Meta.text': lambda: Meta(text='x').text, 'value': it.value}
    for kind in KINDS:
        top, mk = members(kind)
        old[kind + '.add'] = lambda top=top, mk=mk: top().add(mk('a'))
        old[kind + '.add_list'] = lambda top=top, mk=mk: top().add_list([mk('a')])
        old[kind + '.add_list of none'] = lambda top=top: top().add_list([])
        new[kind + '.append'] = lambda top=top, mk=mk: top().append(mk('a'))
        new[kind + '.extend'] = lambda top=top, mk=mk: top().extend([mk('a')])
    for times in (1, 2):
        for name, f in old.items():
            if not any(issubclass(c, DeprecationWarning) for c in warned(f)):
                raise Violation('%s does not warn that it is deprecated' % name)
            ctx.ev((name, times))
        for name, f in new.items():
            if warned(f):
                raise Violation('%s warns' % name)
            ctx.ev((name, times))


# ---------------------------------------------------------------- imports

STATE = """
import sys, os, warnings, logging, locale, io
sys.path.insert(0, %r)
def state():
    return (warnings.filters[:], logging.getLogger().level, len(logging.getLogger().handlers),
            os.getcwd(), sorted(os.environ.items()), sys.path[:], sys.getrecursionlimit(),
            locale.setlocale(locale.LC_ALL))
import argparse, json, itertools, collections, re, xml.etree.ElementTree, copy, subprocess
a = state()
import importlib
m = importlib.import_module(%r)
b = state()
names = 'filters level handlers cwd environ path recursion locale'.split()
print([n for n, x, y in zip(names, a, b) if x != y])
"""


def do_imports(ctx):
    """Importing a module of xigt prints nothing and changes no global settings."""
    root = os.path.dirname(os.path.dirname(xigt.__file__))
    mods = []
    for d, _, fs in sorted(os.walk(os.path.join(root, 'xigt'))):
        for f in sorted(fs):
            if f.endswith('.py'):
                m = os.path.relpath(os.path.join(d, f), root)[:-3].replace(os.sep, '.')
                mods.append(m[:-9] if m.endswith('.__init__') else m)
    for m in mods:
        p = subprocess.run([sys.executable, '-B', '-c', STATE % (root, m)], cwd=ctx.tmp(),
                           capture_output=True, timeout=60)
        if p.returncode:
            if b'ImportError' in p.stderr or b'ModuleNotFoundError' in p.stderr:
                continue  # the libraries it needs are not here
            raise Violation('import %s: %s' % (m, p.stderr.decode()[-400:]))
        if p.stdout.decode().strip() != '[]' or p.stderr:
            raise Violation('import %s changes %s %s' % (m, p.stdout.decode(),
                                                         p.stderr.decode()[-300:]))
        ctx.ev(m)
        ctx.out('import')


# --------------------------------------------------------------- commands

WRONG = {
    'export': [[], ['-i', 'SRC'], ['-o', 'OUT'], ['-i', 'SRC', '-o', 'OUT', '-f', 'pdf'],
               ['-i', 'SRC', '-o', 'OUT', 'more'], ['-i', 'SRC', '-o'],
               ['-i', 'GONE', '-o', 'OUT'], ['-i', 'SRC', '-o', 'OUT', '-c', 'GONE'],
               ['-i', 'SRC', '-o', 'GONE/x']],
    'import': [[], ['-i', 'SRC'], ['-o', 'OUT'], ['-i', 'SRC', '-o', 'OUT', '-f', 'elan'],
               ['-i', 'SRC', '-o', 'OUT', 'more'], ['-i', 'GONE', '-o', 'OUT'],
               ['-i', 'SRC', '-o', 'OUT', '-c', 'GONE']],
    'partition': [[], ['--key-path=@id'], ['--key-path=@id', 'OUT', 'GONE'],
                  ['OUT', '--key-path'], ['--key=@id', '--nosuch', 'OUT', 'SRC']],
    'process': [[], ['x']],
    'query': [[], ['-d', 'x', 'SRC'], ['-d', 'x', '-f', 'igt', 'SRC'], ['-t', 'igt'],
              ['-f', 'igt'], ['-f'], ['-f', 'igt', 'GONE'], ['--description=x', 'SRC'],
              ['SRC', '-d', 'x', '-c', 'igt']],
    'sort': [[], ['--tier-key=@id', '--tier-deps=alignment', 'SRC'], ['GONE'],
             ['SRC', 'SRC'], ['SRC', '--igt-key'], ['--in-place']],
    'validate': [[], ['-v'], ['GONE'], ['SRC', 'GONE'], ['--color']],
}
# options that mean the same; NAME of the output is replaced
SAME = {
    'export': [(['-i', 'SRC', '-o', 'OUT'], ['--input', 'SRC', '--output', 'OUT']),
               (['-i', 'SRC', '-o', 'OUT'], ['--input=SRC', '-oOUT', '--format', 'latex']),
               (['-i', 'SRC', '-o', 'OUT'], ['-f', 'latex', '-v', '-i', 'SRC', '-o', 'OUT']),
               (['-i', 'SRC', '-o', 'OUT', '-c', 'CFG'],
                ['-o', 'OUT', '--config=CFG', '-iSRC'])],
    'import': [(['-i', 'TBX', '-o', 'OUT'], ['--input=TBX', '--output', 'OUT', '-f', 'toolbox']),
               (['-o', 'OUT', '-i', 'TBX'], ['-v', '--format=toolbox', '-iTBX', '-oOUT']),
               (['-i', 'TBX', '-o', 'OUT', '-c', 'TCFG'],
                ['--config', 'TCFG', '-o', 'OUT', '-i', 'TBX', '--verbose'])],
    'query': [(['-f', 'igt/@id', 'SRC'], ['--find', 'igt/@id', 'SRC']),
              (['-c', '//item', 'SRC'], ['--count=//item', 'SRC']),
              (['-u', '//item/@id', 'SRC'], ['SRC', '--unique', '//item/@id']),
              (['-t', 'igt', 'tier/@id', 'SRC'], ['--tally', 'igt', 'tier/@id', 'SRC']),
              (['-f', 'igt/@id', '-d', '{match}!', 'SRC'],
               ['-f', 'igt/@id', '--description', '{match}!', 'SRC']),
              (['-D', '{filename}!', 'SRC'], ['--file-description={filename}!', 'SRC'])],
    'sort': [(['--igt-key', '@type', 'SRC'], ['SRC', '--igt-key=@type', '-v', '--verbose']),
             (['--tier-deps', 'alignment,content', 'SRC'],
              ['--tier-deps=alignment, content', 'SRC'])],
    'validate': [(['-v', 'SRC'], ['--verbose', 'SRC']), (['-vv', 'SRC'], ['SRC', '-v', '-v']),
                 (['-q', 'SRC'], ['--quiet', 'SRC'])],
    'partition': [(['--key-path', '@type', 'OUT', 'SRC'], ['--key-path=@type', 'OUT', 'SRC']),
                  (['--key-path=@k', '--default-key=z', 'OUT', 'SRC'],
                   ['OUT', 'SRC', '--default-key', 'z', '--key-path', '@k', '-v'])],
}


def tree(path):
    if os.path.isdir(path):
        return {f: tree(os.path.join(path, f)) for f in sorted(os.listdir(path))}
    if os.path.exists(path):
        with open(path, 'rb') as fh:
            return fh.read()


def remove(path):
    if os.path.isdir(path):
        for f in os.listdir(path):
            remove(os.path.join(path, f))
        os.rmdir(path)
    elif os.path.exists(path):
        os.unlink(path)


def usage(cmd, mod, src, d, ctx):
    """Wrong arguments are errors and write nothing; synonyms do the same."""
    out, gone, cfg = (os.path.join(d, x) for x in ('out', 'gone', 'cfg.json'))
    with open(cfg, 'w') as fh:
        fh.write('{"tier_types": ["words", "glosses"]}')
    tbx, tcfg = os.path.join(d, 'in.tbx'), os.path.join(d, 'tcfg.json')
    with open(tbx, 'w') as fh:
        fh.write('\\_sh v3.0 x\n\\ref a\n\\t ab c\n\\f free\n\n\\ref b\n\\t d\n')
    with open(tcfg, 'w') as fh:
        fh.write('{"record_markers": ["\\\\ref"], "make_phrase_tier": null}')
    with open(src, 'rb') as fh:
        doc = fh.read()

    def call(args, via, both=True):
        for k, v in (('SRC', src), ('OUT', out), ('GONE', gone), ('TCFG', tcfg), ('TBX', tbx), ('CFG', cfg)):
            args = [x.replace(k, v) for x in args]
        if via:
            return cli.run(lambda _: xigt_main.main(), [cmd] + args)
        return cli.run(mod.main, args, both)
    for args in WRONG[cmd]:
        for via in (0, 1):
            r = call(args, via)
            if not r.code:
                raise Violation('xigt %s %r succeeds: %r' % (cmd, args, r))
            if r.exc is None and not r.out.strip():
                raise Violation('xigt %s %r: no message' % (cmd, args))
            remove(out)
            with open(src, 'rb') as fh:
                if fh.read() != doc or os.path.exists(gone):
                    raise Violation('xigt %s %r changes its input' % (cmd, args))
            ctx.ev((cmd, 'wrong', repr(args), via))
            ctx.out('wrong arguments')
    for a, b in SAME.get(cmd, []):
        res = []
        for args in (a, b):
            r = call(args, 0, cmd == 'validate')  # the log goes to stderr
            res.append((r.code, type(r.exc), r.out, tree(out)))
            if cmd in ('import', 'export') and not res[-1][3]:
                raise Violation('xigt %s %r writes nothing: %r' % (cmd, args, r))
            remove(out)
        if res[0] != res[1]:
            raise Violation('xigt %s: %r gives %r, %r gives %r' % (cmd, a, res[0], b, res[1]))
        if res[0][1] is not type(None) or res[0][0] not in (0, 1):
            raise Violation('xigt %s %r: %r' % (cmd, a, res[0]))
        ctx.ev((cmd, 'same', repr(a), repr(b)))
        ctx.out('synonym')


def do_command(ctx, cmd):
    d = ctx.tmp()
    src = os.path.join(d, 'in.xml')
    with open(src, 'wb') as fh:
        fh.write(xmlref.write(corpus(dict(full_igt('g2'), type='b'),
                                     dict(full_igt('g1'), type='a'))).encode())
    if cmd == 'nosuch':
        for args in ([], ['nosuch'], ['Query'], ['--help']):
            r = cli.run(lambda a: xigt_main.main(), args)
            if r.exc is not None or r.code != (0 if args == ['--help'] else 2):
                raise Violation('xigt %r: %r' % (args, r))
            for c in ('export', 'import', 'partition', 'query', 'sort', 'validate'):
                if c not in r.out and args:
                    raise Violation('xigt %r does not name the command %s' % (args, c))
        ctx.ev('usage')
        ctx.out('usage')
        return
    mod = __import__('xigt.scripts.xigt_' + cmd, fromlist=['main'])
    outs = [os.path.join(d, 'o1'), os.path.join(d, 'o2')]
    for o in outs:
        if cmd == 'partition':
            os.mkdir(o)
    if cmd == 'import':
        stubs.install()
    usage(cmd, mod, src, d, ctx)
    lists = {'export': [['-i', src, '-o', 'OUT']], 'import': [['-i', src]],
             'partition': [['-o', 'OUT', '@type', src], ['OUT', '@type', src]],
             'process': [[], ['x', src]],
             'query': [['-f', 'igt/@id', src], ['-c', '//item', src]],
             'sort': [['--igt-key', '@id', src], ['--item-key', '@id', src]],
             'validate': [[src], ['-v', src]]}[cmd] + [['--help'], ['--nosuch']]
    for args in lists:
        res = []
        for how, o in enumerate(outs):
            a = [o if x == 'OUT' else x for x in args]
            res.append(cli.run(mod.main, a) if how == 0 else
                       cli.run(lambda _: xigt_main.main(), [cmd] + a))
        a, b = res
        if (a.code, type(a.exc), a.out.replace(outs[0], 'O')) != (
                b.code, type(b.exc), b.out.replace(outs[1], 'O')):
            raise Violation('xigt %s %r: %r, the script alone: %r' % (cmd, args, b, a))
        if cmd == 'process' and a.code == 0:
            raise Violation('the removed command process succeeds')
        ctx.ev((cmd, repr(args)))
        ctx.out('exit %s' % a.code)
    # as a program
    env = dict(os.environ, PYTHONPATH=os.path.dirname(os.path.dirname(xigt.__file__)))
    for pre in (['-m', 'xigt.main', cmd], ['-m', 'xigt.scripts.xigt_' + cmd]):
        p = subprocess.run([sys.executable, '-B'] + pre + lists[0 if cmd in (
            'query', 'sort', 'validate') else -2], env=env, cwd=d, capture_output=True,
            timeout=60)
        r = cli.run(mod.main, lists[0 if cmd in ('query', 'sort', 'validate') else -2],
                    both=False)
        if p.returncode != r.code:
            raise Violation('python %r: exit %d, in the process %r' % (pre, p.returncode, r))
        if cmd in ('query', 'sort') and p.stdout.decode().split() != r.out.split():
            raise Violation('python %r prints %r' % (pre, p.stdout[:300]))
