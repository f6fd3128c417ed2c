#!/bin/bash
# Try a planted change: tools/plant.sh [-n] DIR...   (DIR holds patch.diff, demo.sh, meta.json)
# Works on private copies of /repo and /verif, bind-mounted over them in a mount
# namespace of its own, so the real trees are never touched. For each change it
# reports whether it applies, builds, keeps the stable tests, whether the
# demonstration tells the two trees apart, and what the property's check says.
# -n: skip the check.   -c: only the check.
SKIP=; ONLY=
while [ "${1#-}" != "$1" ]; do case $1 in -n) SKIP=1;; -c) ONLY=1;; esac; shift; done
W=${PLANT_WORK:-/tmp/plant}
DIRS=(); for d; do DIRS+=("$(realpath "$d")"); done
if [ -z "$PLANT_INSIDE" ]; then
  mkdir -p "$W" || exit 3
  if [ ! -d "$W/repo" ]; then cp -a /repo "$W/repo"; else rsync -a --delete --exclude target /repo/ "$W/repo/" 2>/dev/null || { cp -a /repo/.git/. "$W/repo/.git/"; git -C "$W/repo" checkout -q -f HEAD; }; fi
  if [ ! -d "$W/verif" ]; then cp -a /verif "$W/verif"; else (cd /verif && tar cf - --exclude=./target --exclude=./seeded --exclude=./evidence --exclude=./run .) | (cd "$W/verif" && tar xf -); fi
  mkdir -p "$W/logs" "$W/seeds"
  IN=()
  for d in "${DIRS[@]}"; do rm -rf "$W/seeds/$(basename "$d")"; cp -a "$d" "$W/seeds/"; IN+=("$W/seeds/$(basename "$d")"); done
  export PLANT_INSIDE=1 PLANT_SKIP=$SKIP PLANT_ONLY=$ONLY PLANT_WORK=$W
  exec unshare -m bash "$(realpath "$0")" "${IN[@]}"
fi
mount --bind "$W/repo" /repo && mount --bind "$W/verif" /verif && mount --bind "$W/logs" /opt/vp/logs || exit 3
export VERIF_SEED=1 VERIF_TIER=quick
for d in "${DIRS[@]}"; do
  n=$(basename "$d"); p=$(python3 -c "import json,sys;print(json.load(open(sys.argv[1]))['property'])" "$d/meta.json")
  r="$n $p:"
  cd /repo; git checkout -q -f HEAD
  if [ -z "$PLANT_ONLY" ]; then
    bash /opt/vp/build.sh >"$W/$n.b0" 2>&1 || r="$r CLEAN-BUILD-FAILS"
    bash "$d/demo.sh" >"$W/$n.d0" 2>&1 && r="$r demo0=ok" || r="$r DEMO-FAILS-CLEAN($?)"
  fi
  if ! git apply "$d/patch.diff" 2>"$W/$n.ap"; then echo "$r DOES-NOT-APPLY"; continue; fi
  if [ -z "$PLANT_ONLY" ]; then
    if ! bash /opt/vp/build.sh >"$W/$n.b1" 2>&1; then echo "$r DOES-NOT-BUILD"; git checkout -q -f HEAD; continue; fi
    exec 9>/tmp/plant.lock; flock 9
    bash /opt/vp/test.sh "$W/$n.json" >/dev/null 2>&1
    flock -u 9
    r="$r $(python3 - "$W/$n.json" <<'P'
import json,sys
s=set(json.load(open('/opt/vp/BASELINE.json'))['stable']); p=set(json.load(open(sys.argv[1]))['passed'])
m=sorted(s-p); print('tests=ok' if not m else 'TESTS-FAIL(%s)'%','.join(m[:3]))
P
)"
    bash "$d/demo.sh" >"$W/$n.d1" 2>&1 && r="$r DEMO-PASSES-PATCHED" || r="$r demo1=fails($?)"
  fi
  if [ -z "$PLANT_SKIP" ]; then
    s=$(date +%s)
    (cd /verif && timeout 900 ./check.sh "$p" quick >"$W/$n.c" 2>&1); c=$?
    if [ $c = 1 ] && grep -q "^VIOLATION property=$p " "$W/$n.c"; then r="$r CAUGHT"; else r="$r MISSED(exit $c)"; fi
    r="$r $(( $(date +%s) - s ))s"
  fi
  echo "$r"
  git checkout -q -f HEAD
done
