#!/bin/bash
# build_quad.sh OUTDIR: the simulator of qugar's C++ core.
set -e
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"; mkdir -p "$out"
src="${QUGAR_CPP:-/repo/cpp}"
mkdir -p "$out/inc/qugar"
[ -e "$src/include/qugar/version.hpp" ] || sed -E 's/@[A-Za-z_]+@/0/g' "$src/include/qugar/version.hpp.in" >"$out/inc/qugar/version.hpp"
inc="-I$out/inc -I$src/include -I$here"
san="-std=gnu++20 -O1 -g1 -fPIC -DNDEBUG -D_GLIBCXX_ASSERTIONS -w -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -fsanitize=thread"
list=""
for f in "$src"/qugar/*.cpp; do
  case "$(basename "$f")" in
    impl_reparam_bezier.cpp|qugar.cpp) ;;
    *) list="$list $f" ;;
  esac
done
export inc san out here
one() { g++ $san $inc -c "$1" -o "$out/$(basename "$1" .cpp).o"; }
export -f one
{ for f in $list "$here/quad_bzr_stub.cpp"; do echo "one $f"; done
  echo "g++ -std=gnu++20 -O2 -g -fPIC -c $here/rt.cpp -o $out/rt.o"
  echo "g++ -std=gnu++20 -O1 -g1 -fPIC -DNDEBUG -w $inc -c $here/quad_main.cpp -o $out/quad_main.o"
} | xargs -P 8 -I{} bash -c '{} || exit 255'
objs=""   # the instrumented copies of inline functions come first
for f in $list; do objs="$objs $out/$(basename "$f" .cpp).o"; done
objs="$objs $out/quad_bzr_stub.o $out/quad_main.o $out/rt.o"
W=""
for s in memcpy memmove memset _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_; do W="$W -Wl,--wrap=$s"; done
g++ -rdynamic -o "$out/quadsim" $objs $W -ldl -lpthread
