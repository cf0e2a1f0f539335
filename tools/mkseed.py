#!/usr/bin/env python3
"""Author one planted bug.

  mkseed.py NAME PROPERTY FILE:  (spec on stdin)

stdin:  OLD text, a line '====', NEW text, a line '####', (further OLD/====/NEW
        blocks separated by '%%%%' lines before '####'), 'needs' line,
        'breaks' line, a line '####', demo.py source.
The change is made in a scratch copy of /repo, tested there (build, baseline
tests, demo fails with it and passes without it), the property's quick check is
run against the copy, and the result is kept in seeded/NAME.
"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO_SH = '''#!/bin/sh
# exit 0: behaves as promised; non-zero: the property is broken
here=$(cd "$(dirname "$0")" && pwd)
PYTHONDONTWRITEBYTECODE=1 PYTHONPATH="$(pwd)" exec python3 -W ignore "$here/demo.py"
'''


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, capture_output=True, text=True, **kw)


def main():
    name, prop, path = sys.argv[1:4]
    edits, info, demo = sys.stdin.read().split('\n####\n', 2)
    needs, breaks = info.strip().split('\n')
    base = '/tmp/seedwork'
    os.makedirs(base, exist_ok=True)
    wt = tempfile.mkdtemp(dir=base)
    wt = os.path.join(wt, 'repo')
    out = os.path.join(HERE, 'seeded', name)
    try:
        sh('cp -a /repo %s' % wt)
        for e in edits.split('\n%%%%\n'):
            p = path
            if e.startswith('@'):
                p, e = e[1:].split('\n', 1)
            old, new = e.split('\n====\n')
            f = os.path.join(wt, p)
            s = open(f).read()
            if s.count(old) != 1:
                print('%s: OLD occurs %d times' % (name, s.count(old)))
                return 1
            open(f, 'w').write(s.replace(old, new))
        os.makedirs(out, exist_ok=True)
        diff = sh('git -C %s diff' % wt).stdout
        open(out + '/patch.diff', 'w').write(diff)
        open(out + '/demo.py', 'w').write(demo)
        open(out + '/demo.sh', 'w').write(DEMO_SH)
        os.chmod(out + '/demo.sh', 0o755)
        json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks},
                  open(out + '/meta.json', 'w'), indent=1)
        # original lines?
        basetxt = {}
        bad = []
        cur = None
        for line in diff.splitlines():
            if line.startswith('--- a/'):
                cur = line[6:]
                basetxt[cur] = sh('git -C /repo show 50eaafb:%s' % cur).stdout.splitlines()
            elif line.startswith('-') and not line.startswith('---'):
                if line[1:] not in basetxt[cur]:
                    bad.append(line)
        good = sh('sh %s/demo.sh' % out, cwd='/repo')
        brk = sh('sh %s/demo.sh' % out, cwd=wt)
        # tests in the copy
        t = sh('bash /verif/tools/testat.sh %s' % wt)
        chk = sh('VERIF_REPO=%s python3 -B %s/run.py %s --tier quick' % (wt, HERE, prop),
                 env=dict(os.environ))
        caught = chk.returncode == 1 and 'VIOLATION property=%s' % prop in chk.stdout
        ok = good.returncode == 0 and brk.returncode != 0 and t.returncode == 0 and not bad
        print('%s %s: %s | demo clean=%d patched=%d tests=%d notoriginal=%d | check rc=%d %s' % (
            name, prop, 'VALID' if ok else 'INVALID', good.returncode, brk.returncode,
            t.returncode, len(bad), chk.returncode, 'CAUGHT' if caught else 'MISSED'))
        if not ok:
            print((good.stdout + good.stderr)[-600:], (brk.stdout + brk.stderr)[-300:],
                  t.stdout[-600:], '\n'.join(bad))
            if '--keep' not in sys.argv:
                shutil.rmtree(out)
        if caught:
            print('   ', [l for l in chk.stdout.splitlines() if l.strip()][-4][:250])
        else:
            print(chk.stdout[-800:])
        return 0
    finally:
        shutil.rmtree(os.path.dirname(wt), ignore_errors=True)


if __name__ == '__main__':
    sys.exit(main())
