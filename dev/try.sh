#!/bin/bash
# run a check, all violations, grouped
cd "$(dirname "$0")/.."
rm -f /tmp/d.json /tmp/tg
MC_TIME=/tmp/tg MC_DUMP=/tmp/d.json MC_STOP=100000 ./run $1 >/tmp/o 2>&1; tail -3 /tmp/o | cut -c1-600
[ -f /tmp/d.json ] && python3 dev/dump.py | cut -c1-${2:-300} | head -${3:-40}
