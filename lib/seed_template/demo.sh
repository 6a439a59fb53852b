#!/bin/bash
# Builds demo.cpp against the library sources under the current directory and runs it; everything stays in a scratch directory.
HERE=$(cd "$(dirname "$0")" && pwd)
ROOT=$PWD
W=$(mktemp -d /tmp/ediedemo.XXXXXX)
trap 'cd /; rm -rf "$W"' EXIT
FL="-std=c++17 -O0 -w -DNDEBUG -DSPDLOG_SHARED_LIB -DSPDLOG_COMPILED_LIB -DSPDLOG_FMT_EXTERNAL -I$HERE/stubs -I$ROOT/include $(cat "$HERE/flags" 2>/dev/null)"
{ find "$ROOT/src/common/src" "$ROOT/src/decoders/common/src" "$ROOT/src/decoders/oem/src" -name '*.cpp'; echo "$HERE/demo.cpp"; } > "$W/list"
n=0
while read -r f; do n=$((n+1)); echo "$f $W/$n.o"; done < "$W/list" > "$W/jobs"
xargs -P 8 -L 1 sh -c 'g++ '"$FL"' -c "$0" -o "$1" || exit 255' < "$W/jobs" || { echo "demo: build failed"; exit 2; }
g++ $FL "$W"/*.o -lspdlog -lfmt -lpthread -o "$W/demo" || { echo "demo: link failed"; exit 2; }
cd "$W" && timeout 200 ./demo
