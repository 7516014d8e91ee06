#!/bin/bash
# seed.sh ID [CHECK...]: confirms the planted bug seeded/ID in a scratch copy that a private mount namespace shows as /repo:
# applies, builds, passes the stable tests, demo fails with it and passes without; then runs the checks (default: its property) with it.
cd "$(dirname "$0")/.." || exit 2
id=$1; shift
S=/tmp/w/repo
[ -d $S ] || { mkdir -p /tmp/w; cp -a /repo $S; }
git -C $S fetch -q /repo HEAD 2>/dev/null; git -C $S checkout -q -- . ; git -C $S reset -q --hard $(git -C /repo rev-parse HEAD) || exit 2
git -C $S apply "$PWD/seeded/$id/patch.diff" || { echo "$id: does not apply"; exit 1; }
props=${*:-$(python3 -c "import json;print(json.load(open('seeded/$id/meta.json'))['property'])")}
cat > /tmp/w/run-$id.sh <<EOS
mount --bind $S /repo || exit 2
cd /repo
bash /opt/vp/test.sh /tmp/w/t-$id.json > /tmp/w/t-$id.log 2>&1
python3 - <<'EOP'
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/w/t-$id.json'))
st=set(b['stable'])
bad=st-set(t['passed'])
print('$id: tests', 'OK' if not bad and t['passed'] else 'BROKEN %d %s' % (len(bad), sorted(bad)[:3]))
EOP
cp -r $PWD/seeded/$id /tmp/w/demo-$id; rm -f /tmp/w/demo-$id/*.diff /tmp/w/demo-$id/meta.json
timeout 300 bash /tmp/w/demo-$id/demo.sh > /tmp/w/demo-$id.log 2>&1; echo "$id: demo with patch: rc \$? (want nonzero): \$(tail -1 /tmp/w/demo-$id.log | cut -c1-150)"
cd $PWD
for p in $props; do
  VERIF_SEED=1 VERIF_TIER=quick timeout 900 ./run.sh \$p --no-evidence > /tmp/w/c-$id-\$p.log 2>&1; echo "$id: check \$p rc \$? \$(grep -a -m1 VIOLATION /tmp/w/c-$id-\$p.log | cut -c1-120)"
done
git -C /repo checkout -q -- .
bash /opt/vp/build.sh > /dev/null 2>&1
cd /repo; timeout 300 bash /tmp/w/demo-$id/demo.sh > /tmp/w/demo-$id.log 2>&1; echo "$id: demo without patch: rc \$? (want 0): \$(tail -1 /tmp/w/demo-$id.log | cut -c1-150)"
EOS
unshare -m bash /tmp/w/run-$id.sh
case $id in *[!A-Za-z0-9_-]*) ;; *) rm -rf "/tmp/w/demo-$id" "/tmp/w/run-$id.sh";; esac
