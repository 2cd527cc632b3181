#!/bin/bash
# builds demo.cpp against the library in the working directory and runs it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 2
trap 'rm -rf "$T"' EXIT
I=()
[ -d "$D/boost" ] && I=(-I"$D" -DBOOST_LOCKFREE_FORCE_BOOST_ATOMIC)
g++ -std=gnu++17 -O1 -g -w @FLAGS@ "${I[@]}" -I"$PWD/include" "$D/demo.cpp" -o "$T/demo" -pthread -latomic || exit 3
cd "$T" && timeout 120 ./demo
