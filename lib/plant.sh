#!/bin/bash
# plant.sh ID [notest]: judges the planted bug seeded/ID in a copy of /repo: builds, baseline tests, demo, check
D=$(cd "$(dirname "$0")/.." && pwd)
id=$1; W=/tmp/plant-$id; L=/tmp/plant-$id.log
rm -rf "$W"; cp -a /repo "$W" || exit 1
p=$(python3 -c "import json;print(json.load(open('$D/seeded/$id/meta.json'))['property'])")
cp -r "$D/seeded/$id" "$W.demo"; rm -f "$W.demo"/patch.diff "$W.demo"/meta.json
run() { unshare -Urm bash -c "mount --bind $W /repo && cd /repo && $1"; }
{
  echo "== clean demo"; (cd /repo && timeout 300 bash "$W.demo/demo.sh") ; c=$?
  git -C "$W" apply "$D/seeded/$id/patch.diff"; a=$?
  run "bash /opt/vp/build.sh"; b=$?
  echo "== patched demo"; run "timeout 300 bash $W.demo/demo.sh"; d=$?
  t=skipped
  if [ "$2" != notest ]; then
    exec 9>/tmp/plant.lock; flock 9; run "bash /opt/vp/test.sh /repo/_build/out.json" >/dev/null 2>&1; flock -u 9
    t=$(python3 - "$W/_build/out.json" <<'P'
import json, sys
b, o = json.load(open("/opt/vp/BASELINE.json")), json.load(open(sys.argv[1]))
f = lambda d: set(d.get("passed", d.get("pass", d.get("stable", []))))
print("lost:", sorted(f(b) - f(o))[:5], len(f(b)), len(f(o)))
P
)
  fi
  echo "== check"; ESPECIA_REPO=$W nice -n 19 timeout 900 python3 "$D/check.py" $p quick; e=$?
} > "$L" 2>&1
grep -q "^VIOLATION property=$p replay=" "$L" || e="$e, no VIOLATION line"
echo "$id $p: apply $a build $b demo clean $c patched $d tests $t check $e"
rm -rf "$W" "$W.demo"
