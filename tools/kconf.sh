#!/bin/bash
# Compares the simulated futexes with the kernel's own: tools/kconf.sh [depth]
cd "$(dirname "$0")/.."
B=$(python3 -c "import vlib;print(vlib.driver('c_kconf','sched',False))") || exit 9
VERIF_OUT=${VERIF_OUT:-build} KCONF_DEPTH=${1:-3} exec "$B"
