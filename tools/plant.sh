#!/bin/bash
# Development tool: confirm a planted bug in a scratch copy shown as /repo in a private mount namespace.
#   tools/plant.sh <id> [full|quick] [PROPERTY...]
# full: build + stable tests + demo on both trees + checks; quick: demo on both trees + checks.
here=$(cd "$(dirname "${BASH_SOURCE[0]}")/.." && pwd)
id=$1; mode=${2:-full}; shift 2
d=$here/seeded/$id
props=${*:-$(python3 -c "import json;print(json.load(open('$d/meta.json'))['property'])")}
w=$(mktemp -d /tmp/plant-XXXXXX)
cp -a "${SRC:-/repo}" "$w/repo"
demo=$(mktemp -d "$w/demo-XXXX"); cp -a "$d/." "$demo"; for f in patch.diff meta.json; do unlink "$demo/$f"; done
(cd /repo && timeout 300 bash "$demo/demo.sh" >"$w/d0" 2>&1); r0=$?
git -C "$w/repo" apply --check "$d/patch.diff" || { echo "$id PATCH-FAILS"; exit 1; }
git -C "$w/repo" apply "$d/patch.diff"
export r0 w here id mode props demo
unshare -m bash -c '
mount --bind "$w/repo" /repo || exit 9
(cd /repo && timeout 300 bash "$demo/demo.sh" >"$w/d1" 2>&1); r1=$?
t=-
if [ "$mode" = full ]; then
  bash /opt/vp/build.sh >"$w/b" 2>&1 || t=BUILD-FAILS
  if [ "$t" = - ]; then
  bash /opt/vp/test.sh "$w/t.json" >"$w/t.log" 2>&1
  t=$(python3 -c "
import json
b=json.load(open(\"/opt/vp/BASELINE.json\")); s=b[\"stable\"]
r=json.load(open(\"$w/t.json\"))
m=[x for x in s if x not in set(r[\"passed\"])]
print(\"tests-ok\" if not m else \"TESTS-FAIL \"+str(m[:3]))")
  fi
fi
echo "$id demo-unchanged=$r0 demo-patched=$r1 $t"
tail -3 "$w/d1"
for p in $props; do
  (cd $here && VERIF_EVIDENCE=$w/ev ./run.sh $p quick >"$w/c-$p" 2>&1); echo "$id check $p exit $?: $(grep -m1 ^$p/ "$w/c-$p" | cut -c1-220)"
done
'
rm -rf "$w"
