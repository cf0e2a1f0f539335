"""Lines of xigt never executed by a check (from VERIF_COV files): uncovered.py DIR"""
import ast, glob, json, os, sys
hits = {}
for f in glob.glob(sys.argv[1] + '/C*'):
    for fn, n in json.load(open(f)):
        hits.setdefault(fn, set()).add(n)
for root, _, fs in os.walk('/repo/xigt'):
    for f in sorted(fs):
        if not f.endswith('.py'):
            continue
        p = os.path.join(root, f)
        src = open(p).read()
        lines = src.splitlines()
        t = ast.parse(src)
        body = set()
        for fn in ast.walk(t):
            if isinstance(fn, (ast.FunctionDef, ast.Lambda)) and isinstance(fn, ast.FunctionDef):
                for s in ast.walk(fn):
                    if isinstance(s, ast.stmt) and s is not fn and not (
                            isinstance(s, ast.Expr) and isinstance(s.value, ast.Constant)):
                        body.add(s.lineno)
        miss = sorted(body - hits.get(p, set()))
        if miss:
            print(p)
            for n in miss:
                print('  %4d %s' % (n, lines[n-1]))
