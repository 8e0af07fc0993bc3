#!/bin/bash
# dev build (check.py does the same with a cache): build.sh REPO OUTDIR
set -e
REPO=${1:-/repo}; OUT=${2:-/tmp/simb}; mkdir -p $OUT; HERE=$(dirname "$0")
IF="-std=c++20 -O1 -g1 -fsanitize=thread -w -I$REPO/include -I$REPO/src -I$REPO/external -I$REPO -I$HERE"
R="--redefine-sym memcpy=__sim_memcpy --redefine-sym memmove=__sim_memmove --redefine-sym memset=__sim_memset --redefine-sym memcmp=__sim_memcmp"
cc() { g++ $IF -c $1 -o $2 && objcopy $R $2; }
export -f cc; export IF R
{ for f in $(cd $REPO && find src -name '*.cpp'); do echo "$REPO/$f $OUT/$(echo $f|tr / _).o"; done; for f in h_common h_scen; do echo "$HERE/$f.cpp $OUT/$f.o"; done; } | xargs -P 8 -L1 bash -c 'cc $0 $1'
for f in rt hist main; do g++ -std=c++20 -O2 -g1 -w -c $HERE/$f.cpp -o $OUT/$f.o & done; wait
g++ -no-pie $OUT/*.o -o $OUT/sim -lpthread -ldl
