#!/bin/bash
# check.sh <property>: decides one property; VERIF_TIER selects quick or thorough.
cd "$(dirname "$0")"
[ -x bin/engine ] || ./setup.sh >&2 || exit 2
exec bin/engine -verif /verif -repo /repo "$@"
