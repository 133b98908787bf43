#!/bin/bash
# usage: check.sh <property>
. "$(dirname "$0")/lib.sh"
build_lib
case "$1" in
C0[1-9]|C1[0-4]) ;;
*)
    build_cli
    export PICA_BIN="$CLIT/debug/pica"
    ;;
esac
exec "$LIBT/release/mc" "$1"
