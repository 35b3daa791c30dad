#!/bin/bash
# builds the demonstration from the sources in the current directory and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
SRC=$(ls src/efsw/*.cpp src/efsw/platform/posix/*.cpp | grep -v 'Win32\|FSEvents\|Kqueue')
for s in $SRC; do echo $s; done | xargs -P8 -I{} sh -c 'g++ -std=c++11 -O1 -g -DNDEBUG SAN -Iinclude -Isrc -c {} -o '"$T"'/$(basename {} .cpp).o' || exit 2
g++ -std=c++11 -O1 -g -DNDEBUG SAN -Iinclude -Isrc -I"$D" "$D/demo.cpp" "$T"/*.o -o "$T/demo" -lpthread || exit 2
mkdir "$T/w"
timeout 120 RUN "$T/demo" "$T/w"
