#!/bin/bash
# check.sh PROPERTY [flags]: builds the simulator from /repo's working tree and
# runs one property's batch of simulated runs (tier from VERIF_TIER or -tier).
V="$(cd "$(dirname "${BASH_SOURCE[0]}")" && pwd)"
K=; [ "$1" = C11 ] && K=race
"$V/build.sh" $K || { echo "check.sh: build failed" >&2; exit 2; }
P="$1"; shift
exec "$V/.build/sim" check -prop "$P" -tier "${VERIF_TIER:-quick}" "$@"
