#!/bin/bash
# Compiles /repo's C++ core with the stand-in for algoim beside this script, links demo.cpp, runs it.
here="$(cd "$(dirname "$0")" && pwd)"
tmp="$(mktemp -d /tmp/quaddemo.XXXXXX)"
trap 'rm -rf "$tmp"' EXIT
mkdir -p "$tmp/inc/qugar" "$tmp/out"
sed -E 's/@[A-Za-z_]+@/0/g' /repo/cpp/include/qugar/version.hpp.in >"$tmp/inc/qugar/version.hpp"
flags="-std=gnu++20 -O1 -w -DNDEBUG -D_GLIBCXX_ASSERTIONS -I$tmp/inc -I/repo/cpp/include -I$here"
{ ls /repo/cpp/qugar/*.cpp | grep -v -e 'impl_reparam_bezier.cpp' -e '/qugar.cpp'; ls "$here"/*.cpp; } |
  xargs -P 8 -I{} sh -c "g++ $flags -c {} -o $tmp/\$(basename {}).o || exit 255" || { echo "does not compile"; exit 2; }
g++ -o "$tmp/demo" "$tmp"/*.o -lpthread || { echo "does not link"; exit 2; }
cd "$tmp/out" && "$tmp/demo"
