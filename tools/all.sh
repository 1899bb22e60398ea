#!/bin/sh
# run every check, print the summary lines
cd "$(dirname "$0")/.."
ls checks | sed -n 's/^\(c[0-9]*\).py/\1/p' | tr c C | xargs -P 6 -I{} sh -c './check {} > /tmp/scratch/all-{}.log 2>&1; echo "$? $(grep -v "^  undecided" /tmp/scratch/all-{}.log | head -1)"' | sort -k2
