#!/bin/bash
# run.sh check ID      build the monitors from /repo's working tree and decide one property
# run.sh replay ID N   replay case N of a property (VERIF_SEED selects the list)
# run.sh setup         warm the build cache
here=$(cd "$(dirname "$0")" && pwd)
export HOME=${HOME:-/root} LANG=C.UTF-8
[ -d /opt/veriftools/go1.27.3/bin ] && export PATH=/opt/veriftools/go1.27.3/bin:$PATH
export GOTOOLCHAIN=local GOPROXY=off GOFLAGS=-mod=readonly GOWORK=off CGO_ENABLED=1 GOSUMDB=off GONOSUMDB='*' GONOSUMCHECK=1
export GOPATH=${GOPATH:-/root/go} GOMODCACHE=${GOMODCACHE:-/root/go/pkg/mod} GOCACHE=${GOCACHE:-/root/.cache/go-build}
export MON_ROOT=$here
unset DISPLAY WAYLAND_DISPLAY TMUX GORACE GODEBUG
bin=$here/.build
mkdir -p "$bin"
build() { # $1 = plain|race
    local f=; [ "$1" = race ] && f=-race
    (cd "$here/mon" && go build $f -o "$bin/mon-$1.$$" . && mv "$bin/mon-$1.$$" "$bin/mon-$1") || {
        echo "build failed"; exit 2; }
}
# Properties whose monitors run under the race detector.
RACE=" P01 P02 P03 P04 P05 P08 P16 P30 P33 P34 "
case "$1" in
setup) build plain; build race ;;
check|replay)
    kind=plain; case "$RACE" in *" $2 "*) kind=race ;; esac
    build $kind
    exec "$bin/mon-$kind" "$@" ;;
*) echo "usage: run.sh check|replay|setup ..."; exit 2 ;;
esac
