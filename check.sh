#!/bin/bash
# check.sh <property>: build the harness against /repo's working tree, then run one check.
set -u
cd /verif
export VMC_ONLY="$1"
. /verif/build.sh || { echo "check error: the harness does not build against /repo" >&2; exit 3; }
unset VMC_ONLY
exec /verif/target/debug/mc "$@"
