#!/bin/bash
# Determinism of the simulator: every run of every check again in other processes, another number of
# workers, the reverse order and another hash seed; the digests of all runs must agree.
cd "$(dirname "$0")/.." || exit 2
for c in ${@:-C01 C02 C03 C04 C05 C06 C07 C08 C09 C10 C11 C12 C13 C14 C15}; do
    SIM_DIGESTS=1 SIM_SCALE=${SIM_SCALE:-.1} /opt/venv/bin/python -m sim.run check $c | tail -3
done
