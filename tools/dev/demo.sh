#!/bin/bash
# run with cwd = the repository, after the build
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
g++ -std=c++20 -O1 -DNDEBUG -I"$PWD/dwave/optimization/include" "$D/demo.cpp" -o "$T/demo" \
    -L"$PWD/_build" -ldwave-optimization -Wl,-rpath,"$PWD/_build" || exit 2
timeout 120 "$T/demo"
