#!/bin/bash
# t.sh <driver>[+] [flavour] args   (+: with the C++ library)
cd /verif; d=$1; shift; fl=${1:-sched}; shift
cpp=False; case $d in *+) cpp=True; d=${d%+};; esac
B=$(python3 -c "import vlib;print(vlib.driver('$d','$fl',$cpp))") || exit 9
exec "$B" "$@"
