#!/bin/bash
# check.sh PROPERTY quick|thorough: decides one property against the working tree of /repo.
cd "$(dirname "$0")" || exit 2
[ -x bin/vx ] || bash setup.sh >&2 || exit 2
exec bin/vx check -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
