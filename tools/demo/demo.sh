#!/bin/bash
# run with the repository (built) as the current directory
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
g++ -std=c++11 -w -g -I"$PWD/include" -I"$here" -o "$tmp/demo" "$here/demo.cpp" "$PWD/librtmfp.a" -lcrypto -lpthread || exit 2
timeout 120 "$tmp/demo"
