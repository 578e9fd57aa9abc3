#!/bin/bash
# Builds demo.cc against /repo's library and runs it in a scratch directory.
here=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d) || exit 2
trap 'rm -rf "$t"' EXIT
export OMPI_ALLOW_RUN_AS_ROOT=1 OMPI_ALLOW_RUN_AS_ROOT_CONFIRM=1 OMPI_MCA_btl=self,vader OMPI_MCA_ess_singleton_isolated=1 OMP_NUM_THREADS=1 TMPDIR="$t"
export OMPI_MCA_btl_vader_single_copy_mechanism=none OMPI_MCA_rmaps_base_oversubscribe=1
L=/usr/lib/x86_64-linux-gnu
g++ -std=gnu++17 -O0 -w -DDEBUG -I/repo/include -I/repo/applications -isystem $L/openmpi/include -isystem $L/openmpi/include/openmpi \
  -isystem /usr/include/petsc -isystem /usr/include/trilinos -isystem /usr/include/hdf5/openmpi -isystem /usr/include/scotch \
  -isystem /usr/include/suitesparse -isystem /usr/include/opencascade -isystem /usr/include/slepc \
  "$here/demo.cc" -o "$t/demo" -Wl,-rpath,/repo/_build/source:$L/hdf5/openmpi:$L/openmpi/lib /repo/_build/source/libgCP.so \
  $L/libdeal.ii.g.so.9.5.1 $(ls $L/libtrilinos_*.so) -ltbb -lmuparser -lz -ldl -lm $L/openmpi/lib/libmpi_cxx.so $L/openmpi/lib/libmpi.so \
  -lstdc++fs -lpthread -fuse-ld=gold > "$t/log" 2>&1 || { tail -20 "$t/log"; exit 3; }
cd "$t" && timeout 250 ./demo
