#!/bin/sh
# check.sh PROPERTY [quick|thorough]
cd "$(dirname "$0")" || exit 2
[ -x bin/gosym ] || ./setup.sh >&2 || exit 2
exec bin/gosym -repo "${VERIF_REPO:-/repo}" -verif "$PWD" -prop "$1" -tier "${2:-${VERIF_TIER:-quick}}"
