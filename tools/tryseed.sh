#!/bin/bash
# tryseed.sh [-t] ID [CHECK...]: in a private copy of /repo, run the demo without and with the planted bug, (-t) the stable tests, and the checks
t=0; [ "$1" = -t ] && { t=1; shift; }
id=$1; shift
w=$(mktemp -d /tmp/seed.XXXXXX)
cp -a /repo $w/repo
checks="$*"
[ -z "$checks" ] && checks=$(python3 -c "import json;print(json.load(open('/verif/seeded/$id/meta.json'))['property'])")
cp -a /verif/seeded/$id $w/demo
unshare -Urm bash -c "
mount --bind $w/repo /repo; cd /repo
bash $w/demo/demo.sh >$w/d0 2>&1; r0=\$?
git apply /verif/seeded/$id/patch.diff || echo $id NOAPPLY
bash /opt/vp/build.sh >$w/b 2>&1 || echo $id NOBUILD
bash $w/demo/demo.sh >$w/d1 2>&1; r1=\$?
echo $id demo: clean=\$r0 planted=\$r1
[ \$r0 = 0 ] || tail -3 $w/d0
[ \$r1 != 0 ] || echo NOT-SHOWN
if [ $t = 1 ]; then
 sed 's#--basetemp#--deselect tests/test_cli.py --basetemp#; s#-n auto#-n 4#' /opt/vp/test.sh > $w/test.sh
 bash $w/test.sh $w/out.json >$w/t 2>&1
 python3 - $id $w/out.json <<'P'
import json,sys
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable'])
o=json.load(open(sys.argv[2]))
ok=set()
for k,v in o.items():
    if k in('passed','pass'): ok|=set(v)
if not ok:
    ok={k for k,v in (o.get('tests') or o).items() if v in('passed','pass',True)}
print(sys.argv[1],'tests failing:',sorted(s-ok)[:5])
P
fi
for c in $checks; do
 /opt/venv/bin/python /verif/check.py \$c --tier quick 2>&1 >$w/c; r=\$?
 echo $id \$c rc=\$r: \$(grep -c ^VIOLATION $w/c) \$(grep ^VIOLATION $w/c | head -2 | cut -c1-200)
done
" | sed "s#\$c#&#"
case $w in /tmp/seed.??????) rm -rf "$w";; esac
