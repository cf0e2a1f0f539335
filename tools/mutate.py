"""Development aid: systematic mutants of xigt, run through the baseline tests and
then through the checks that execute the changed line.
  mutate.py COVDIR OUT [FILE-SUBSTRING] [STRIDE OFFSET]
Appends one JSON line per mutant to OUT."""
import warnings
warnings.simplefilter('ignore')
import ast, glob, json, os, shutil, subprocess, sys, tempfile, time
from concurrent.futures import ThreadPoolExecutor
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
CPU = int(os.environ.get('MUT_CPU', '420'))


def seg(lines, n):
    """(start, end) offsets of a node"""
    def off(l, c):
        # col offsets are utf-8 bytes
        return sum(len(x) for x in lines[:l - 1]) + len(
            lines[l - 1].encode()[:c].decode())
    return off(n.lineno, n.col_offset), off(n.end_lineno, n.end_col_offset)


def mutants(path):
    src = open(path).read()
    lines = src.splitlines(True)
    tree = ast.parse(src)
    docs = set()
    parents = {}
    for n in ast.walk(tree):
        for c in ast.iter_child_nodes(n):
            parents[c] = n
        if isinstance(n, ast.Expr) and isinstance(n.value, ast.Constant):
            docs.add(n.value)
    def infunc(n):
        while n in parents:
            n = parents[n]
            if isinstance(n, (ast.FunctionDef, ast.Lambda)):
                return True
        return False
    def inraise(n):
        while n in parents:
            if isinstance(n, ast.Raise):
                return True
            if isinstance(n, ast.Call):
                f = ast.unparse(n.func)
                if f.startswith(('warnings.', 'logging.', 'parser.', 'argparse.')) or 'Warning' in f or '__repr__' in f:
                    return True
            n = parents[n]
        return False
    out = []
    def rep(n, text, op):
        a, b = seg(lines, n)
        if src[a:b] != text:
            out.append((n.lineno, op, src[a:b][:70], text[:70], src[:a] + text + src[b:]))
    def S(n):
        a, b = seg(lines, n)
        return src[a:b]
    CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>',
           ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
    for n in ast.walk(tree):
        if not hasattr(n, 'lineno'):
            continue
        fn = infunc(n)
        if inraise(n) and not isinstance(n, ast.Raise):
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            rep(n, '(%s %s %s)' % (S(n.left), CMP[type(n.ops[0])], S(n.comparators[0])), 'cmp')
        elif isinstance(n, ast.BoolOp):
            op = 'or' if isinstance(n.op, ast.And) else 'and'
            rep(n, '(' + (' %s ' % op).join('(%s)' % S(v) for v in n.values) + ')', 'bool')
            for i, v in enumerate(n.values):
                rest = [w for j, w in enumerate(n.values) if j != i]
                o = 'and' if isinstance(n.op, ast.And) else 'or'
                rep(n, '(' + (' %s ' % o).join('(%s)' % S(w) for w in rest) + ')', 'booldrop')
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            rep(n, '(%s)' % S(n.operand), 'not')
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            rep(n, '(%s)' % S(n.left), 'binleft')
            rep(n, '(%s)' % S(n.right), 'binright')
        elif isinstance(n, ast.Constant) and n not in docs and not isinstance(parents.get(n), ast.JoinedStr):
            v = n.value
            if isinstance(v, bool):
                rep(n, repr(not v), 'const')
            elif isinstance(v, int):
                rep(n, repr(v + 1), 'const')
                if v > 0:
                    rep(n, repr(v - 1), 'const')
            elif v is None and fn and not isinstance(parents.get(n), ast.Compare):
                rep(n, "''", 'const')
            elif isinstance(v, str) and fn:
                rep(n, "'XX'" if v == '' else "''", 'const')
        elif isinstance(n, (ast.If, ast.While)) or isinstance(n, ast.IfExp):
            rep(n.test, 'True', 'cond')
            rep(n.test, 'False', 'cond')
        elif isinstance(n, ast.comprehension):
            pass
        elif isinstance(n, ast.Slice):
            if n.lower:
                rep(n, ':' + (S(n.upper) if n.upper else ''), 'slice')
            if n.upper:
                rep(n, (S(n.lower) if n.lower else '') + ':', 'slice')
        elif isinstance(n, ast.Call):
            f = n.func
            if isinstance(f, ast.Name) and f.id in ('sorted', 'reversed', 'list', 'set', 'dict', 'tuple', 'str', 'iter') and len(n.args) == 1:
                rep(n, '(%s)' % S(n.args[0]) if f.id != 'sorted' else 'list(%s)' % S(n.args[0]), 'unwrap')
            if isinstance(f, ast.Attribute) and f.attr in ('strip', 'rstrip', 'lstrip', 'lower', 'upper', 'copy', 'items') and not n.args and f.attr != 'items':
                rep(n, S(f.value), 'unwrap')
            if fn:
                for k in n.keywords:
                    others = [S(a) for a in n.args] + ['%s=%s' % (q.arg, S(q.value)) if q.arg else '**' + S(q.value) for q in n.keywords if q is not k]
                    rep(n, '%s(%s)' % (S(f), ', '.join(others)), 'kwdrop')
                if len(n.args) > 1 and not any(isinstance(a, ast.Starred) for a in n.args):
                    others = [S(a) for a in n.args[:-1]] + ['%s=%s' % (q.arg, S(q.value)) if q.arg else '**' + S(q.value) for q in n.keywords]
                    rep(n, '%s(%s)' % (S(f), ', '.join(others)), 'argdrop')
        elif isinstance(n, (ast.Continue, ast.Break, ast.Raise)):
            rep(n, 'pass', 'stmt')
            if isinstance(n, ast.Continue):
                rep(n, 'break', 'stmt')
            if isinstance(n, ast.Break):
                rep(n, 'continue', 'stmt')
        elif isinstance(n, ast.Return) and n.value is not None:
            if not (isinstance(n.value, ast.Constant) and n.value.value is None):
                rep(n, 'return None', 'ret')
        elif isinstance(n, ast.Expr) and n.value not in docs and fn:
            if isinstance(n.value, (ast.Yield,)):
                rep(n, 'yield None', 'stmt')
            rep(n, 'pass', 'stmt')
        elif isinstance(n, (ast.Assign, ast.AugAssign)) and fn:
            rep(n, 'pass', 'stmt')
        if isinstance(n, ast.ListComp) or isinstance(n, ast.GeneratorExp) or isinstance(n, ast.SetComp):
            for g in n.generators:
                for c in g.ifs:
                    rep(c, 'True', 'cond')
    res = []
    seen = set()
    for m in out:
        if m[4] in seen:
            continue
        seen.add(m[4])
        try:
            compile(m[4], path, 'exec')
        except SyntaxError:
            continue
        res.append(m)
    return res


def sh(cmd, timeout, **kw):
    p = subprocess.Popen(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         text=True, start_new_session=True, **kw)
    try:
        o, _ = p.communicate(timeout=timeout)
        return p.returncode, o
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return -9, ''


def main():
    cov = {}
    for f in glob.glob(sys.argv[1] + '/C*'):
        pid = os.path.basename(f).split('.')[0]
        for fn, n in json.load(open(f)):
            cov.setdefault((fn, n), set()).add(pid)
    out = sys.argv[2]
    sub = sys.argv[3] if len(sys.argv) > 3 else ''
    stride, offset = (int(sys.argv[4]), int(sys.argv[5])) if len(sys.argv) > 5 else (1, 0)
    anchors = {}
    for l in open(HERE + '/properties.jsonl'):
        p = json.loads(l)
        for f in p['anchors']['files']:
            anchors.setdefault(f, []).append(p['id'])
    costs = {}
    for i in os.listdir(HERE + '/evidence'):
        costs[i[:-5]] = json.load(open(HERE + '/evidence/' + i))['wall_s']
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l)
            done.add((d['file'], d['line'], d['op'], d['old'], d['new'], d['n']))
    jobs = []
    for root, _, fs in sorted(os.walk(REPO + '/xigt')):
        for f in sorted(fs):
            p = os.path.join(root, f)
            if not f.endswith('.py') or sub not in p:
                continue
            rel = os.path.relpath(p, REPO)
            for n, m in enumerate(mutants(p)):
                if n % stride != offset:
                    continue
                if (rel, m[0], m[1], m[2], m[3], n) in done:
                    continue
                if rel.endswith('xigtxml.py') and 85 <= m[0] <= 155:
                    continue  # comparisons of _QName: never reached
                who = cov.get((p, m[0]))
                if not who:
                    # continuation lines and module level: the nearest covered line above
                    who = set()
                    for k in range(m[0], max(0, m[0] - 12), -1):
                        if (p, k) in cov:
                            who = cov[p, k]
                            break
                    if not who:
                        who = set(anchors.get(rel, ()))
                a = anchors.get(rel, [])
                order = sorted(who, key=lambda c: (c not in a, costs.get(c, 9)))
                jobs.append((rel, n, m, order))
    import random
    random.Random(1).shuffle(jobs)
    print(len(jobs), 'mutants', flush=True)
    base = tempfile.mkdtemp(prefix='mut', dir='/tmp/w')
    pool = []
    for i in range(8):
        d = '%s/r%d/repo' % (base, i)
        os.makedirs(os.path.dirname(d))
        sh('cp -a /repo %s' % d, 60)
        h = '%s/v%d' % (base, i)
        os.makedirs(h)
        sh('cp -a %s/run.py %s/mc %s/known_findings.json %s' % (HERE, HERE, HERE, h), 60)
        pool.append((d, h))

    def one(job):
        rel, n, m, order = job
        d, h = pool.pop()
        t = time.time()
        try:
            f = os.path.join(d, rel)
            orig = open(f).read()
            open(f, 'w').write(m[4])
            rc, o = sh('bash /verif/tools/testat.sh %s' % d, 60)
            r = {'file': rel, 'line': m[0], 'op': m[1], 'old': m[2], 'new': m[3], 'n': n}
            if rc:
                r['result'] = 'tests'
            else:
                r['result'] = 'SURVIVED'
                r['ran'] = []
                for c in order:
                    if time.time() - t > CPU:
                        r['result'] = 'UNDECIDED'
                        break
                    rc, o = sh('VERIF_WORKERS=1 VERIF_REPO=%s TMPDIR=%s timeout -k 5 %d python3 -B %s/run.py %s --tier quick'
                               % (d, base, CPU, h, c), CPU + 20)
                    r['ran'].append(c)
                    if rc == 1 and 'VIOLATION' in o:
                        r['result'] = 'caught ' + c
                        break
                    if rc not in (0, -9, 124, 137):
                        r['result'] = 'broken %s rc=%s %s' % (c, rc, o[-300:])
                        break
            open(f, 'w').write(orig)
            r['t'] = round(time.time() - t)
            with open(out, 'a') as fh:
                fh.write(json.dumps(r) + '\n')
        finally:
            pool.append((d, h))
    try:
        with ThreadPoolExecutor(int(os.environ.get("MUT_N", "8"))) as ex:
            list(ex.map(one, jobs))
    finally:
        shutil.rmtree(base, ignore_errors=True)


if __name__ == '__main__':
    main()
