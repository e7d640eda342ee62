#!/bin/bash
# run with cwd = the repository after its build; exit 0: behaves as stated, non-zero: does not
here=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d); trap 'rm -rf "$t"' EXIT
g++ -std=c++20 -O0 -w -fno-access-control -Iinclude -Isrc -Iexternal -I. "$here/demo.cpp" $(find bin/src -name '*.o' ! -name 'main*.o') -lpthread -o "$t/d" || exit 99
timeout 100 "$t/d"
