#!/bin/bash
# tools/sweep.sh SEED SECONDS [properties]: all checks with another seed
cd "$(dirname "$0")/.."
S=$1; T=$2; shift 2
P=${*:-$(python3 -c "from harness.checks import CHECKS; print(*CHECKS)")}
for p in $P; do python3 run.py --property $p --seed $S --seconds $T --keep-going 2>&1; done
