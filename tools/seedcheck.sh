#!/bin/bash
# seedcheck.sh ID... : confirm planted bugs in a scratch copy of /repo: applies, builds, passes the
# tests of all modules, demo passes without and fails with the patch, and say whether the monitor
# of the property catches it.
MUT=$(cd "$(dirname "$0")" && pwd)/mut.sh
. /opt/vp/env.sh
for id in "$@"; do
  S=${SR:-/verif/seeded}/$id
  D=$(mktemp -d /tmp/seedXXXXXX)
  cp -a /repo "$D/repo"; cp -a "$S" "$D/demo"; rm -f "$D/demo/patch.diff" "$D/demo/meta.json"
  cd "$D/repo" || exit 1
  if timeout 300 bash "$D/demo/demo.sh" >"$D/clean.log" 2>&1; then c=ok; else c=FAIL; tail -15 "$D/clean.log"; fi
  git apply "$S/patch.diff" || { echo "$id: patch does not apply"; rm -rf "$D"; continue; }
  git diff -U0 >"$D/p"
  for f in $(git diff --name-only); do
    git show bf247b5:"$f" 2>/dev/null >"$D/base" || : >"$D/base"
    git diff -U0 -- "$f" | grep '^-[^-]' | cut -c2- | while IFS= read -r l; do grep -qxF -- "$l" "$D/base" || echo "   note: not an original line: $l"; done
  done
  if timeout 300 bash "$D/demo/demo.sh" >"$D/pat.log" 2>&1; then p=STILL-PASSES; else p=fails; fi
  if [ "$FAST" ]; then t=skipped; else
  t=ok; for m in $MODULES; do (cd "$D/repo/$m" && go build -o /dev/null ./... && go test -vet=off -count=1 -timeout 10m ./... </dev/null) >"$D/t.log" 2>&1 || { t="TESTS FAIL in $m"; grep -E "^(---|\s+---|FAIL|#)" "$D/t.log" | head -10; }; done
  fi
  echo "== $id: demo clean $c, patched $p, tests $t"
  [ "$p" = fails ] && tail -4 "$D/pat.log" | cut -c1-200
  prop=$(python3 -c "import json,sys;print(json.load(open('$S/meta.json'))['property'])")
  cd /; rm -rf "$D"
  [ "$NOMON" ] || L=3 W=300 bash "$MUT" "$S/patch.diff" "$prop"
done
