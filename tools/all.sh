#!/bin/bash
# runs every check (parallel), prints the last line of each
cd "$(dirname "$0")/.."
ids=${*:-$(ls checks | grep -o '^c[0-9][0-9]' | tr c C)}
printf '%s\n' $ids | xargs -P 6 -I{} sh -c 'o=$(python3 check.py {} ${TIER:-quick} 2>&1 | tail -1 | cut -c1-200); echo "{} $o"'
