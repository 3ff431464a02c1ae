#!/bin/bash
# Same scenarios, different worker counts and hash seeds: every event log must be the same.
# usage: tools/determinism.sh [count] [property...]
here=$(cd "$(dirname "$0")/.." && pwd)
n=${1:-64}; shift
props=${*:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15}
bad=0
for p in $props; do
  a=$(QS_SIM_DIGESTS=1 QS_SIM_WORKERS=8 QS_SIM_HASHSEED=0 bash "$here/check.sh" "$p" --count "$n" | grep '^digests')
  b=$(QS_SIM_DIGESTS=1 QS_SIM_WORKERS=3 QS_SIM_HASHSEED=12345 bash "$here/check.sh" "$p" --count "$n" | grep '^digests')
  if [ -n "$a" ] && [ "$a" = "$b" ]; then echo "$p same $a"; else echo "$p DIFFERENT: $a / $b"; bad=1; fi
done
exit $bad
