#!/bin/bash
# check.sh PROP: rebuilds the simulator around /repo's working tree and explores PROP.
# Exit 0: held on every run; 1: violated (VIOLATION line, replay file); anything else: no answer.
set -u
prop="$1"
tier="${VERIF_TIER:-quick}"
seed="${VERIF_SEED:-1}"
here="$(cd "$(dirname "$0")" && pwd)"
. "$here/lib.sh"
build_all "$prop" || exit 3

# Runs per check are fixed, so that a seed names one exact exploration; the time limit only
# matters on a machine much slower than the one these were chosen on.
case "$prop" in
C01) q=8000 ;;
C02) q=9000 ;;
C03) q=60000 ;;
C04) q=60000 ;;
C05) q=3000 ;;
C06) q=80000 ;;
C07) q=2500 ;;
C08) q=5000 ;;
C09) q=30000 ;;
C10) q=3000 ;;
C11) q=16000 ;;
C12) q=30000 ;;
C13) q=50000 ;;
C14) q=25000 ;;
C15) q=120000 ;;
*) echo "no check for $prop" >&2; exit 2 ;;
esac
if [ "$tier" = thorough ]; then
    runs="${VERIF_RUNS:-$((q * 200))}" secs="${VERIF_SECS:-7200}"
else
    tier=quick
    runs="${VERIF_RUNS:-$q}" secs="${VERIF_SECS:-480}"
fi
mkdir -p "$here/evidence" "$here/out"
grep "^KNOWN-FINDING: property=$prop " "$here/known-findings.txt" 2>/dev/null
run_sim check "$prop" --tier "$tier" --seed "$seed" --runs "$runs" --secs "$secs" \
    --workers "$(nproc)" --evidence "$here/evidence/$prop.json" --replays "$here/out"
exit $?
