#!/bin/bash
# Compiles the demonstration against /repo's sources and the library built there.
set -u
here=$(cd "$(dirname "$0")" && pwd)
repo=$(pwd)
dir=$(mktemp -d) || exit 3
trap 'rm -rf -- "$dir"' EXIT
g++ -std=c++17 -g -w -I"$repo" -I"$repo/src" -I"$here" "$here/demo.cpp" -L"$repo/_build" -Wl,-rpath,"$repo/_build" -ldkim++ -lsodium -lresolv -lssl -lcrypto -lpthread -o "$dir/demo" || exit 3
timeout 100 "$dir/demo"
