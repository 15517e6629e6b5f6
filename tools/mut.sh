#!/bin/bash
# mut.sh PATCH|- PROP... : run monitors against a scratch copy of /repo with a patch applied
# (for trying out the sensitivity of the monitors; nothing registered uses it)
set -e
patch=$1; shift
. /opt/vp/env.sh
D=$(mktemp -d /tmp/mutXXXXXX); trap 'rm -rf "$D"' EXIT
cp -a /repo "$D/repo"; cp -a /verif/mon "$D/mon"; mkdir -p "$D/v/evidence"; cp /verif/known-findings.txt "$D/v/"
sed -i "s#/repo/#$D/repo/#" "$D/mon/go.mod"
[ "$patch" = - ] || git -C "$D/repo" apply "$patch"
export GOFLAGS=-mod=mod GOSUMDB=off
for p in "$@"; do
  race=; case " P02 P03 P04 P05 P08 P16 P30 P33 " in *" $p "*) race=-race;; esac
  (cd "$D/mon" && go build $race -o "$D/m" .) && (MON_ROOT="$D/v" MON_WORK="$D" timeout 900 "$D/m" check "$p" 2>&1 | cut -c1-${W:-400} | tail -${L:-8}) || true
done
