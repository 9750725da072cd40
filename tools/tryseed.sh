#!/bin/bash
# usage: tryseed.sh ID : in a private copy of /repo (bind-mounted over /repo), runs the demo, applies the seed, builds, tests, runs the demo and the check of its property
root="$(cd "$(dirname "$0")/.." && pwd)"
if [ -z "$TRY_INSIDE" ]; then
  c=/tmp/tryrepo.$$; rm -rf "$c"; cp -a /repo "$c"; git -C "$c" checkout -q -- .
  mkdir -p /tmp/tryverif.$$; tar cf - -C /verif --exclude=./target --exclude=./.git --exclude=./replays . | tar xf - -C /tmp/tryverif.$$; [ -d /tmp/trytarget ] || cp -a /verif/target /tmp/trytarget; ln -sfn /tmp/trytarget /tmp/tryverif.$$/target
  TRY_INSIDE=1 unshare -Urm bash -c "mount --bind $c /repo && mount --bind /tmp/tryverif.$$ /verif && cd /verif && bash tools/tryseed.sh $1"
  rm -rf "/tmp/tryrepo.$$" "/tmp/tryverif.$$"; exit
fi
d="$root/seeded/$1"
p="$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")"
cd /repo
if [ -z "$SKIP_DEMO" ]; then bash "$d/demo.sh" >/tmp/ts.log 2>&1; echo "$1 demo on clean tree: $?"; fi
git apply "$d/patch.diff" || exit 2
if [ -z "$SKIP_DEMO" ]; then
bash /opt/vp/build.sh >/tmp/ts.log 2>&1 || { echo "BUILD FAILS"; exit 2; }
bash /opt/vp/test.sh /tmp/ts.json >/dev/null 2>&1; python3 -c "
import json; b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('/tmp/ts.json'))
s=set(b.get('stable',b.get('passed',b.get('tests',[]))));print('stable tests lost:',sorted(s-set(t['passed'])))" 
bash "$d/demo.sh" >/tmp/ts2.log 2>&1; echo "$1 demo on patched tree: $? $(tail -3 /tmp/ts2.log | cut -c1-300)"
fi
for c in ${CHECKS:-$p}; do timeout 900 bash "$root/run.sh" $c ${TIER:-quick} >/tmp/ts-$c.log 2>&1; echo "$1 check $c: exit $? $(grep -c VIOLATION /tmp/ts-$c.log) $(grep -m1 VIOLATION /tmp/ts-$c.log)"; done
