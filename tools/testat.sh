#!/bin/bash
# run the stable tests in a copy of /repo; exit 0 iff all baseline tests pass there
wt=$1; out=$(mktemp)
sed "s#/repo#$wt#g" /opt/vp/test.sh > $out.sh
sed "s#/repo#$wt#g" /opt/vp/build.sh > $out.b.sh
bash $out.b.sh >/dev/null 2>$out.err || { cat $out.err; rm -f $out*; exit 1; }
bash $out.sh $out >$out.log 2>&1
python3 - $out <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json'));o=json.load(open(sys.argv[1]))
def s(x):
    for k in ('passed','stable','pass','tests'):
        if k in x and isinstance(x[k],list): return set(x[k])
m=s(b)-s(o)
print('lost tests', sorted(m)[:5])
raise SystemExit(1 if m else 0)
P
rc=$?; rm -f $out*; exit $rc
