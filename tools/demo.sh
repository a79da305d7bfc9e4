#!/bin/bash
# build the demonstration against /repo's library and run it in a scratch directory
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d /tmp/demo.XXXXXX) || exit 2
trap 'rm -rf "$T"' EXIT
gcc -w -g -I/repo/monotone/main/api -I"$D" -o "$T/demo" "$D/demo.c" -L/repo/_build -lmonotone -Wl,-rpath,/repo/_build -lpthread -ldl || exit 2
cd "$T" && timeout -s KILL 120 ./demo "$T"
