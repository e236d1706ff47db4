#!/bin/bash
# build.sh OUTDIR [REPO]: instrumented build of /repo's current working tree plus the simulator.
set -eo pipefail
out=$1; repo=${2:-/repo}
here=$(cd "$(dirname "$0")" && pwd)
unset CXXFLAGS CFLAGS LDFLAGS CPPFLAGS
export LC_ALL=C.UTF-8
mkdir -p "$out"
g++ -std=c++17 -O2 -g1 -fno-pie -w -c "$here/simrt.cpp" -o "$out/simrt.o" &
p1=$!
g++ -std=c++17 -O1 -g1 -fno-pie -w -DARMIPS_USE_STD_FILESYSTEM -I"$repo" -I"$repo/ext/tinyformat" -c "$here/harness.cpp" -o "$out/harness.o" &
p2=$!
# STACKINIT=zero|pattern: what automatic variables contain before they are first written
FL="-O1 -g1 -DNDEBUG -fsanitize=thread -fno-pie -w${STACKINIT:+ -ftrivial-auto-var-init=$STACKINIT}"
# the command-line front end: everything in Main but main() and the test driver
( cli=()
for f in "$repo"/Main/*.cpp; do
	case "$(basename "$f")" in main.cpp|Tests.cpp) continue;; esac
	g++ -std=c++17 $FL -DARMIPS_USE_STD_FILESYSTEM -DARMIPS_REGEXP=1 -I"$repo" -I"$repo/ext/tinyformat" -c "$f" -o "$out/cli_$(basename "$f" .cpp).o" || exit 1
done ) &
p3=$!
cmake -S "$repo" -B "$out/lib" -G Ninja -DCMAKE_C_COMPILER=/usr/bin/gcc -DCMAKE_CXX_COMPILER=/usr/bin/g++ \
	-DCMAKE_BUILD_TYPE=None -DCMAKE_CXX_FLAGS="$FL -Wno-error" \
	-DARMIPS_USE_STD_FILESYSTEM=ON -DARMIPS_LIBRARY_ONLY=ON > "$out/cmake.log" 2>&1
ninja -C "$out/lib" armips > "$out/ninja.log" 2>&1 || { tail -40 "$out/ninja.log"; exit 3; }
wait $p1; wait $p2; wait $p3
g++ -no-pie -static-libstdc++ -static-libgcc -Wl,--wrap=_ZNSt13random_device9_M_getvalEv -o "$out/armsim" -Wl,--whole-archive "$out/lib/libarmips.a" -Wl,--no-whole-archive \
	"$out"/cli_*.o "$out/harness.o" "$out/simrt.o" -lpthread -ldl
