#!/bin/bash
# Builds the demonstration against the sources in the current directory and runs it.
D=$(cd "$(dirname "$0")" && pwd); T=$(mktemp -d) || exit 2; trap 'rm -rf "$T"' EXIT
find src -name '*.cpp' | while read -r f; do echo "$f $T/$(echo "$f" | tr / _).o"; done > "$T/list"
xargs -P 8 -L 1 sh -c 'g++ -std=c++20 -O1 -w FLAGS -Iinclude -Isrc -I. -c "$0" -o "$1" || exit 255' < "$T/list" || exit 2
g++ -std=c++20 -O1 -w FLAGS -Iinclude -Isrc -I. -I"$D" "$D/demo.cpp" "$T"/*.o -o "$T/demo" -lpthread || exit 2
timeout -k 5 120 "$T/demo"
