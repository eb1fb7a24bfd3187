#!/bin/bash
# Compiles demo.cpp with the sources in /repo and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d)
trap 'rm -rf "$tmp"' EXIT
srcs=$(find src -name '*.cpp' ! -name main.cpp ! -name broker_core.cpp)
for s in $srcs "$here/demo.cpp"; do
	echo "$s"
done | xargs -P 8 -I{} sh -c 'g++ -std=c++17 -O0 -w -DSPDLOG_COMPILED_LIB -DSPDLOG_SHARED_LIB -DSPDLOG_FMT_EXTERNAL -I src -I "'"$here"'" -c "{}" -o "'"$tmp"'/$(echo {} | md5sum | cut -c1-16).o"' || exit 2
g++ "$tmp"/*.o -o "$tmp/demo" -lspdlog -lfmt -lyaml-cpp -lzmq -lcurl -lboost_system -lboost_filesystem -lpthread || exit 2
cd "$tmp" && timeout 100 ./demo
