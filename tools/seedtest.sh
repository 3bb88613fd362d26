#!/bin/bash
# seedtest.sh ID [PROP...]: confirms a planted bug in a scratch copy and runs
# the checks (by default the one of its property; ALL=1: all claimed ones)
# against it. Nothing in /repo changes.
id="$1"; shift
here="$(cd "$(dirname "$0")/.." && pwd)"
s=/tmp/seed.$id; rm -rf "/tmp/seed.$id"; mkdir -p $s
cp -a /repo $s/repo
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=mod
sd=$here/seeded/$id
(cd $s/repo && bash $sd/demo.sh >$s/clean.log 2>&1); c=$?
(cd $s/repo && git apply $sd/patch.diff) || { echo "$id: patch does not apply"; exit 1; }
(cd $s/repo && go build ./... >$s/build.log 2>&1) || { echo "$id: does not build"; cat $s/build.log; exit 1; }
(cd $s/repo && bash $sd/demo.sh >$s/bad.log 2>&1); b=$?
echo "$id: demo clean=$c ($(tail -1 $s/clean.log)) patched=$b ($(tail -1 $s/bad.log))"
if [ -z "$NOTEST" ]; then
  sed "s#/repo#$s/repo#g" /opt/vp/test.sh > $s/test.sh
  flock /tmp/seedtest.lock bash $s/test.sh $s/test.json >$s/test.log 2>&1
  python3 - $s/test.json <<'P'
import json, sys
st = json.load(open('/opt/vp/BASELINE.json'))['stable']
r = json.load(open(sys.argv[1]))
p = r.get('passed') or [k for k, v in r.get('tests', {}).items() if v in ('pass', 'passed', True)]
bad = [t for t in st if t not in p]
print('   stable tests:', 'all pass' if not bad else 'FAILED ' + ' '.join(bad))
P
fi
cp -a $here/harness $s/harness
sed -i "s#=> /repo#=> $s/repo#" $s/harness/go.mod
(cd $s/harness && go test -c -o $s/props.test ./props && go test -race -c -o $s/props.race ./props) || { echo "harness does not build"; exit 1; }
props="$*"; [ -z "$props" ] && props=$(python3 -c 'import json,sys;print(json.load(open(sys.argv[1]))["property"])' $sd/meta.json)
[ -n "$ALL" ] && props=$(cat $here/tools/claimed.txt)
hit=""
for p in $props; do
  b=$s/props.test; [ $p = D01 ] && b=$s/props.race
  $b -prop $p -out $s/out -evidence $s/ev >$s/$p.log 2>&1
  rc=$?
  [ $rc = 1 ] && hit="$hit $p"
  [ $rc -gt 1 ] && hit="$hit $p(rc=$rc)"
done
echo "$id: caught by:$hit"
rm -rf "/tmp/seed.$id"
