#!/bin/bash
# check.sh PROPERTY TIER: rebuilds the verifier if needed and decides one property of /repo.
cd "$(dirname "$0")" || exit 2
[ -x bin/govc ] && [ -z "$(find govc -name '*.go' -newer bin/govc -not -path '*/vendor/*' -print -quit)" ] || bash build.sh || exit 2
exec bin/govc -prop "$1" -tier "${2:-quick}" -verif "$(pwd)" -repo /repo
