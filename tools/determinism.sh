#!/bin/bash
# determinism.sh [RUNS] [SEEDS...]: the same runs with 1, 3 and 7 workers, each in its own process and scratch
# directory, must give the same events. Prints one line per property; exits 1 when any run differs.
V=$(cd "$(dirname "$0")/.." && pwd); N=${1:-60}; shift; SEEDS=${*:-1 2 3}; T=$(mktemp -d /tmp/det.XXXXXX); bad=0
make -s -C "$V/sim" OUT="$V/build" -j8 || exit 2
for p in $(python3 -c "import json;[print(json.loads(l)['id']) for l in open('$V/properties.jsonl')]"); do
  total=0; diff=0
  for s in $SEEDS; do
    for wn in 1 3 7; do
      for ((w = 0; w < wn; w++)); do "$V/build/simrun" search --prop $p --seed $s --worker $w --workers $wn --secs 600 --runs $N --out "$T" --scratch "$T/s$wn.$w" --hashes "$T/h.$wn.$w" > /dev/null & done; wait
      cat "$T"/h.$wn.* | sort -u > "$T/all.$wn"; rm -f "$T"/h.$wn.*
    done
    # every (run, workload) key has one hash
    cat "$T"/all.* | sort -u > "$T/union"; k=$(cut -d' ' -f1 "$T/union" | sort -u | wc -l); u=$(wc -l < "$T/union"); total=$((total + k)); diff=$((diff + u - k))
  done
  echo "$p: $total runs, $diff different"; [ $diff = 0 ] || bad=1
done
find "$T" -delete; exit $bad
