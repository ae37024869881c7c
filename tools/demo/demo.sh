#!/bin/bash
# Builds demo.cc against the objects of the last build and runs it.
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d) || exit 3
trap 'rm -rf "$T"' EXIT
TF=/opt/wod/tf/tensorflow; B=/opt/wod/build
OBJS=$(find $B/obj -name '*.o' ! -name '*_test.o' ! -name '*main.o' ! -name 'test_utils.o' \
  ! -path '*/tools/*' ! -path '*/latency/*' ! -path '*/data_conversion/*')
g++ -std=c++17 -O1 -DNDEBUG -fPIC -pthread -w -D_GLIBCXX_USE_CXX11_ABI=1 -DEIGEN_MAX_ALIGN_BYTES=64 \
  -I"$D" -I"$PWD/src" -I$B/gen -isystem $TF/include "$D/demo.cc" $OBJS -o "$T/demo" \
  -L$TF -Wl,-rpath,$TF -l:libtensorflow_framework.so.2 -lglog -lz -ldl || exit 3
cd "$T" && TF_CPP_MIN_LOG_LEVEL=3 timeout 200 ./demo
