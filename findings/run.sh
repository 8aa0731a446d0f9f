#!/bin/bash
# usage: run.sh REPO [N...]   builds the demonstrations against REPO's sources with ASan+UBSan
R=${1:-/repo}; shift; W=$(mktemp -d); trap "rm -rf $W" EXIT
for f in $R/src/*.cpp; do echo $f; done | xargs -P8 -I{} sh -c "g++ -std=c++11 -O1 -g -fsanitize=address,undefined -D__forceinline=inline -include cstring -c {} -o $W/\$(basename {} .cpp).o" || exit 3
g++ -std=c++11 -O1 -g -fsanitize=address,undefined -D__forceinline=inline -include cstring -I$R/include $(dirname $0)/demo.cpp $W/*.o -o $W/demo || exit 3
for n in ${*:-1 2 3 4 5 6 7 8 9 10 11 12 13 14 15 16 17}; do
  timeout 60 $W/demo $n > $W/out 2>&1; rc=$?; echo "F$n rc=$rc $(grep -m1 -E 'FAIL|ERROR: |Assertion' $W/out | cut -c1-150)"
done
