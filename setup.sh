#!/bin/sh
# Nothing to install: every check compiles its own harness against /repo/src.
# This only confirms that the explorer builds here.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence replays
g++ -std=c++17 -O1 -w -Imc -c mc/engine.cpp -o build/setup.o && rm -f build/setup.o
