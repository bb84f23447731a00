#!/bin/bash
# build.sh FLAVOUR [ninja targets...] : (re)builds /repo's working tree, instrumented, in /verif/build/FLAVOUR
# Flavours: asan (address+undefined), tsan (thread).
set -u
V=$(cd "$(dirname "$0")" && pwd); FL=$1; shift
export HOME=${HOME:-/root} LC_ALL=C.UTF-8 CC=gcc CXX=g++ PYTHONDONTWRITEBYTECODE=1
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export CCACHE_DIR=$V/build/ccache CCACHE_MAXSIZE=4G CCACHE_NOHASHDIR=1
case $FL in
  asan) SAN="-fsanitize=address,bounds,null,vla-bound,bool,integer-divide-by-zero,nonnull-attribute -fno-omit-frame-pointer";;
  tsan) SAN="-fsanitize=thread -fno-omit-frame-pointer";;
  *) echo "unknown flavour"; exit 2;;
esac
B=$V/build/$FL
mkdir -p "$B"
exec 9>"$B/.lock"; flock 9
python3 "$V/vf/stale.py" /repo "$B" check
if [ ! -f "$B/build.ninja" ]; then
  cmake -S /repo -B "$B" -G Ninja -DCMAKE_BUILD_TYPE=Release \
    -DPYTHON_EXECUTABLE=/usr/bin/python3 \
    -DCMAKE_CXX_FLAGS="-include $V/cmake/compat.h -DIMPLICIT_CTDS_32BIT $SAN" -DCMAKE_C_FLAGS="$SAN" \
    -DCMAKE_CXX_FLAGS_RELEASE="-O1 -g1 -DNDEBUG" -DCMAKE_C_FLAGS_RELEASE="-O1 -g1 -DNDEBUG" \
    -DCMAKE_CXX_COMPILER_LAUNCHER=ccache -DCMAKE_C_COMPILER_LAUNCHER=ccache \
    -DCMAKE_PROJECT_meqtrees_INCLUDE="$V/cmake/hook.cmake" -DVF_CMAKE="$V/cmake" -DVF_SRC="$V/src" -DVF_FLAVOUR=$FL \
    -DCASACORE_LIBRARY_casa_components= -DCASACORE_LIBRARY_casa_calibration= \
    -DCASACORE_LIBRARY_casa_msvis= -DCASACORE_LIBRARY_casa_synthesis= \
    -Wno-dev > "$B/cmake.log" 2>&1 || { tail -20 "$B/cmake.log"; rm -f "$B/build.ninja"; exit 2; }
fi
if ! ninja -C "$B" -j8 "$@" > "$B/ninja.log" 2>&1; then
  echo "BUILD FAILED ($FL)"; grep -n "error" "$B/ninja.log" | head -20; tail -30 "$B/ninja.log"; exit 2
fi
python3 "$V/vf/stale.py" /repo "$B" record
exit 0
