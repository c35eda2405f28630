#!/bin/sh
# dev/all.sh: all rules on /repo, in parallel
cd "$(dirname "$0")/.." && ls sa/rules/*.py | sed 's|.*/||; s|\.py||' | grep -v __init__ | xargs -P 8 -I{} sh -c 'python3 sa/check.py {} "$@" > /tmp/all_{}.txt 2>&1; echo "rc=$? $(head -1 /tmp/all_{}.txt)"; grep -E "undecided |VIOL|ERROR|Trace|: .*: " /tmp/all_{}.txt | cut -c1-300 | tail -n +1' | sort | uniq
