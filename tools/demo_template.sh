#!/bin/bash
# Builds demo.cpp against the working tree (cwd: the repository, already built) and runs it.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -rf "$tmp"' EXIT
L=/usr/lib/x86_64-linux-gnu
g++ -std=c++17 -O0 -w -fvisibility=hidden -DBOOST_ATOMIC_DYN_LINK -DBOOST_CHRONO_DYN_LINK -DBOOST_CONTAINER_DYN_LINK \
  -DBOOST_FILESYSTEM_DYN_LINK -DBOOST_LOG_DYN_LINK -DBOOST_PROGRAM_OPTIONS_DYN_LINK -DBOOST_REGEX_DYN_LINK \
  -DBOOST_SERIALIZATION_DYN_LINK -DBOOST_THREAD_DYN_LINK -DFMT_HEADER_ONLY=1 \
  -I"$here" -I"$PWD" -I"$PWD/include" -I"$PWD/_build/include" \
  -isystem $L/openmpi/include -isystem $L/openmpi/include/openmpi -isystem /usr/include/eigen3 -isystem /usr/include/python3.12 \
  "$here/demo.cpp" -o "$tmp/demo" -Wl,--as-needed -Wl,-rpath,$L/openmpi/lib \
  "$PWD/_build/libFiniteVolumeSolver.Solver.a" "$PWD/_build/libFiniteVolumeSolver.OdeSolver.a" "$PWD/_build/libRadauSolverFortran.a" \
  $L/openmpi/lib/libmpi_cxx.so $L/openmpi/lib/libmpi.so \
  $L/libboost_container.so.1.83.0 $L/libboost_log.so.1.83.0 $L/libboost_chrono.so.1.83.0 $L/libboost_filesystem.so.1.83.0 \
  $L/libboost_regex.so.1.83.0 $L/libboost_thread.so.1.83.0 $L/libboost_atomic.so.1.83.0 $L/libboost_program_options.so.1.83.0 \
  $L/libboost_serialization.so.1.83.0 /usr/lib/libVc.a $L/libpython3.12.so -lgmp -lmpfr -lgfortran -lquadmath -lpthread -ldl || exit 2
cd "$tmp" && ./demo
