#!/bin/bash
# n.sh <id> [secs]: builds and evaluates the contracts of one property natively.
cd /verif/contracts && CARGO_NET_OFFLINE=true CARGO_TARGET_DIR=/verif/.build/native cargo build 2>&1 | grep -A14 "^error" | head -${L:-90}
B=/verif/.build/native/debug/native
for c in $($B list $1 | python3 -c "import sys,json;[print(json.loads(l)['name']) for l in sys.stdin]"); do $B run $1 $c ${2:-3} 1 | cut -c1-700; done
