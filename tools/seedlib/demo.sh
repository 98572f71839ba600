#!/bin/bash
# builds demo.cpp against the library built in /repo and runs it in a scratch directory
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d /tmp/mbdemo.XXXXXX) || exit 2
trap 'rm -rf "$w"' EXIT
g++ -O1 -g -w -std=c++17 -D__LOCK_FREE__ -DMB_ENABLE_TRAVERSAL_LIMIT -I/repo/src -I/repo/src/util -I/repo/src/detail "$here/demo.cpp" -o "$w/demo" -L/repo/_build/lib -lmabain -Wl,-rpath,/repo/_build/lib -ljemalloc -lpthread || exit 2
mkdir "$w/db"
timeout 120 "$w/demo" "$w/db/"
