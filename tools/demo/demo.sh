#!/bin/bash
# Builds demo.cpp with the sources it needs from the current directory (the repository) and runs it.
D=$(cd "$(dirname "$0")" && pwd); R=$PWD; T=$(mktemp -d /tmp/demo.XXXXXX) || exit 3
trap 'rm -rf "$T"' EXIT
tar xzf "$D/support.tgz" -C "$T" || exit 3
mkdir -p "$T/root/dev/shm" "$T/root/tmp" "$T/o"
export VSHIM_ROOT="$T/root" T R D
F="-std=c++17 -O0 -g1 -w -I$T/vsched -I$T/common -I$T/shim -I$R"; X=$(cat "$D/flags.txt" 2>/dev/null); export F X
g++ $F -x c++-header "$T/vsched/prelude.h" -o "$T/vsched/prelude.h.gch" || exit 3
(sed "s#\$#.cpp#;s#^#$R/score/#" "$D/sources.txt"; echo "$D/demo.cpp"; echo "$T/common/stubs.cpp") | xargs -P 8 -I{} bash -c 'g++ $F $X -include prelude.h -c {} -o $T/o/$(echo {} | tr / _).o || exit 255' || exit 3
g++ $F -c "$T/vsched/vsched.cpp" -o "$T/o/vsched.o" && g++ -o "$T/demo" "$T"/o/*.o -lpthread -lrt -ldl || exit 3
timeout 200 "$T/demo"
