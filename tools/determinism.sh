#!/bin/bash
# Every property's campaign, split over 8, 3 and 1 worker processes and over two seeds: the fold of all run hashes must agree.
# usage: determinism.sh [RUNS] [ID...]
cd "$(dirname "$0")/.." || exit 2
runs=${1:-300}; shift; bin=${VERIF_BUILD:-./build}/simknor; bad=0
ids=${*:-$(python3 -c 'import json;print(*[c["property"] for c in json.load(open("MANIFEST.json"))["checks"] if c["property"]!="C35"])')}
for id in $ids; do for seed in 1 77; do
    h=(); for w in 8 3 1; do h+=("$(VERIF_SEED=$seed "$bin" hist "$id" --runs "$runs" --workers $w | grep -o 'hash [0-9a-f]*')"); done
    if [ "${h[0]}" = "${h[1]}" ] && [ "${h[0]}" = "${h[2]}" ] && [ -n "${h[0]}" ]; then echo "$id seed $seed ${h[0]} same"; else echo "$id seed $seed DIFFERS: ${h[*]}"; bad=1; fi
done; done
exit $bad
