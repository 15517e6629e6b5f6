#!/bin/bash
# dev helper: build and replay/check (RACE=1 builds with the race detector)
. /opt/vp/env.sh; export GOFLAGS=-mod=mod GOSUMDB=off; cd "${MON_SRC:-/verif/mon}" && go build ${RACE:+-race} -o /tmp/mon${RACE:+-race} . && MON_ROOT=${MON_ROOT:-/verif} MON_WORK=${MON_WORK:-/tmp} /tmp/mon${RACE:+-race} "$@"
