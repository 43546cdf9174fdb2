#!/bin/bash
# check.sh PROPERTY quick|thorough   - builds the property's harness from /repo and runs it
# check.sh PROPERTY replay FILE      - replays one saved case
V=$(cd "$(dirname "$0")" && pwd)
id=$1; tier=${2:-${VERIF_TIER:-quick}}
h=$(ls "$V"/harness/"${id}"_*.cpp 2>/dev/null | head -1)
[ -n "$h" ] || { echo "no harness for $id" >&2; exit 2; }
h=$(basename "$h" .cpp)
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
python3 "$V/build.py" "$h" || { echo "BUILD FAILED for $h" >&2; exit 2; }
mkdir -p "$V/evidence" "$V/replays"
if [ "$tier" = replay ]; then exec "$V/build/bin/$h" --known "$V/known_findings.tsv" --replay "$3"; fi
shift 2
exec "$V/build/bin/$h" --tier "$tier" --seed "${VERIF_SEED:-1}" --evidence "$V/evidence/$id.json" \
    --replay-dir "$V/replays" --known "$V/known_findings.tsv" "$@"
