#!/bin/bash
# buildh.sh DIR [REPO]: builds the harness in DIR for development
d=$1; r=${2:-/repo}; mkdir -p "$d"
f="-std=c++14 -O1 -w -D_GLIBCXX_ASSERTIONS"
for s in $r/src/lpaggreg/sources/*.cpp /verif/harness/*.cpp; do echo "g++ $f -I$r/src/lpaggreg/headers -I/verif/harness -c $s -o $d/$(basename $s).o"; done | xargs -P8 -I{} sh -c '{}'
g++ $d/*.o -o $d/harness
