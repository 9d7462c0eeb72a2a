#!/bin/bash
# check.sh PROPERTY [quick|thorough]: decides one property on /repo's working tree
here="$(cd "$(dirname "$0")" && pwd)"
tier="${2:-${VERIF_TIER:-quick}}"
[ -x "$here/bin/gvc" ] || bash "$here/build.sh" || exit 2
. /opt/vp/env.sh
export PATH=$PATH:/opt/veriftools/bin
cd "$here" || exit 2
exec "$here/bin/gvc" check -repo "${VERIF_REPO:-/repo}" -verif "$here" -prop "$1" -tier "$tier"
