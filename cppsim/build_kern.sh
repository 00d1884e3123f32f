#!/bin/bash
# build_kern.sh OUTDIR: the simulator that generated kernels are loaded into.
set -e
. /opt/vp/env.sh
here="$(cd "$(dirname "$0")" && pwd)"
out="$1"; mkdir -p "$out"
bx="$("$PY" -c 'import basix, os; print(os.path.dirname(basix.__file__))')"
inc="-I$VENV/include -I$bx/include"
SRC="${QUGAR_SHIM_SRC:-/repo/python/qugar/dolfinx/_shim/qugar_basix_shim.cpp}"
g++ -std=c++20 -O1 -g -fPIC -fno-builtin-memcpy -fno-builtin-memmove -fno-builtin-memset -fsanitize=thread $inc -c "$SRC" -o "$out/shim.o" &
g++ -std=c++20 -O2 -g -fPIC -c "$here/rt.cpp" -o "$out/rt.o" &
g++ -std=c++20 -O1 -g -fPIC $inc -c "$here/kern_main.cpp" -o "$out/kern_main.o" &
wait %1; wait %2; wait %3
W=""
for s in memcpy memmove memset _ZSt29_Rb_tree_insert_and_rebalancebPSt18_Rb_tree_node_baseS0_RS_; do W="$W -Wl,--wrap=$s"; done
for t in d f; do
  W="$W -Wl,--wrap=_ZN5basix14create_elementI${t}EENS_13FiniteElementIT_EENS_7element6familyENS_4cell4typeEiNS4_16lagrange_variantENS4_11dpc_variantEbSt6vectorIiSaIiEE"
  W="$W -Wl,--wrap=_ZNK5basix13FiniteElementI${t}E8tabulateEiSt4spanIK${t}Lm18446744073709551615EESt5arrayImLm2EES2_I${t}Lm18446744073709551615EE"
done
g++ -rdynamic -o "$out/kernsim" "$out/shim.o" "$out/kern_main.o" "$out/rt.o" $W -L"$VENV/lib" -L"$bx/lib" -lbasix "-Wl,-rpath,$VENV/lib:$bx/lib" -ldl -lpthread
