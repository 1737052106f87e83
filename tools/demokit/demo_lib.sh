#!/bin/bash
# usage: demo_lib.sh main.cpp   (cwd: the repository, built). Compiles main.cpp against the built library.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d)
trap 'rm -rf "$T"' EXIT
SRCS="$D/demo.cpp"
[ -n "$QLD" ] && SRCS="$SRCS src/solver/QLDLeastSquareSolver.cpp"
g++ -std=c++17 -O0 -w -pthread -DEIGEN_RUNTIME_NO_MALLOC -D_GLIBCXX_ASSERTIONS $FLAGS -I"$D" -Iinclude -I_build/include -I3rd-party -I/usr/include/eigen3 $SRCS \
  -o "$T/demo" -L_build/src -lTVM_d -Wl,-rpath,"$PWD/_build/src" || exit 2
cd "$T" && timeout 120 ./demo
