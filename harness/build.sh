#!/bin/bash
# build.sh OUTDIR: builds the concrete-input searcher from /repo's working tree (VC_REPO overrides)
set -u
R=${VC_REPO:-/repo}; H=$(cd "$(dirname "$0")" && pwd); O=$1; mkdir -p "$O"
E=$(ls -d /usr/include/eigen3 /usr/local/include/eigen3 2>/dev/null | sed 's/^/-isystem /')
F="-std=c++23 -stdlib=libc++ -O1 -g1 -w -fsanitize=address,undefined -fno-sanitize-recover=all -D_LIBCPP_HARDENING_MODE=_LIBCPP_HARDENING_MODE_EXTENSIVE -I$R/include $E"
find "$R/src" -name '*.cpp' > "$O/list"; ls "$H"/*.cpp >> "$O/list"
xargs -P 8 -I{} sh -c 'f={}; o='"$O"'/$(echo $f | tr / _).o; clang++-18 '"$F"' -c $f -o $o || exit 255' < "$O/list" || exit 1
clang++-18 -stdlib=libc++ -fsanitize=address,undefined "$O"/*.o -o "$O/harness"
