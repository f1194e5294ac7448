#!/bin/bash
# build.sh GROUP...  Builds build/h_GROUP and build/xmq (instrumented) from /repo's working tree. Objects are kept
# under build/obj, keyed by a hash of everything that goes into them.
set -e -o pipefail
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin LC_ALL=C.UTF-8
HERE=$(cd "$(dirname "$0")" && pwd)
VERIF=$(cd "$HERE/.." && pwd)
REPO=${XMQ_REPO:-/repo}
B=$VERIF/build
mkdir -p "$B/obj"
exec 9> "$B/.lock"; flock 9

SAN="-fsanitize=address,bounds,null,integer-divide-by-zero,signed-integer-overflow,unreachable,return,bool,vla-bound -fno-sanitize-recover=all -fno-omit-frame-pointer"
CF="-O1 -g1 -w $SAN -I/usr/include/libxml2"
h() { sha256sum | cut -c1-24; }
files() { find "$@" -type f -print0 | LC_ALL=C sort -z | xargs -0 sha256sum | sed "s|$REPO|R|;s|$VERIF|V|"; }

# parts/yaep.c is a generated, committed file. Regenerate it from yaep/src when that was changed.
SRC=$REPO/src/main/c
LIBHASH=$( { files "$SRC"; echo "$CF"; } | h)
YH=$( (cd "$SRC/yaep" && sha256sum src/* build_single_yaep_source_file.sh) | h)
if [ "$YH" != "$(cat "$HERE/yaep_src.hash")" ]; then
    rm -rf "$B/regen"; mkdir -p "$B/regen"; cp -r "$SRC" "$B/regen/c"; SRC=$B/regen/c
    (cd "$SRC/yaep" && sh ./build_single_yaep_source_file.sh)
fi
HDRHASH=$( { cat "$HERE"/*.h | sha256sum; sha256sum < "$REPO/src/main/c/xmq.h"; echo "$CF"; } | h)

declare -A OBJ
PIDS=()
compile() { # name hash command...
    local name=$1 hash=$2; shift 2
    OBJ[$name]=$B/obj/$name-$hash.o
    if [ -f "${OBJ[$name]}" ]; then touch "${OBJ[$name]}"; return; fi
    ( "$@" -c -o "${OBJ[$name]}.tmp" && mv "${OBJ[$name]}.tmp" "${OBJ[$name]}" ) & PIDS+=($!)
}
compile xmq $LIBHASH clang $CF -DVERSION='"verif"' -I"$SRC" "$SRC/xmq.c"
compile cli $LIBHASH clang $CF -DVERSION='"verif"' -DCOMMIT='"verif"' -I"$SRC" "$SRC/xmq-cli.c"
cxx() { local n=$1; compile $n $( { sha256sum < "$HERE/$n.cc"; echo $HDRHASH; } | h) clang++ -std=c++17 $CF -I"$SRC" "$HERE/$n.cc"; }
cxx engine; cxx model
for g in "$@"; do cxx p_$g; done
for p in "${PIDS[@]}"; do wait $p || { echo "build failed" >&2; exit 2; }; done
LIBS="-lxml2 -lxslt -lexslt -lz -lm -lpthread"
[ "${OBJ[cli]}" -ot "$B/xmq" ] && [ "$(cat "$B/xmq.key" 2>/dev/null)" = "$LIBHASH" ] || { clang $SAN "${OBJ[cli]}" "${OBJ[xmq]}" -o "$B/xmq" $LIBS; echo $LIBHASH > "$B/xmq.key"; }
for g in "$@"; do clang++ $SAN "${OBJ[engine]}" "${OBJ[model]}" "${OBJ[p_$g]}" "${OBJ[xmq]}" -o "$B/h_$g" $LIBS; done
# Drop old objects.
find "$B/obj" -type f -mmin +600 -delete 2>/dev/null || true
