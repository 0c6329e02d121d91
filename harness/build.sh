#!/bin/bash
# build.sh OUTDIR [asan]   builds the driver from /repo's working tree (hooks on)
set -e
REPO=${REPO:-/repo}; OUT=$1; MODE=$2; H=$(cd "$(dirname "$0")" && pwd)
mkdir -p $OUT/obj
CC=${VCC:-gcc}; FL=${VCFLAGS:--O2}
INC="-I$REPO/include -I$REPO/external/amd/include -I$REPO/external/ldl/include -I$REPO/external/SuiteSparse_config"
DEF="-DCTRLC=1 -DLDL_LONG -DDLONG -DECOS_VTRACE"
[ "$MODE" = asan ] && FL="-O1 -g -fsanitize=address -fno-omit-frame-pointer" && DEF="$DEF -DDRIVER_ASAN"
SRC="$(ls $REPO/src/*.c $REPO/ecos_bb/*.c | grep -v runecos) $REPO/external/ldl/src/ldl.c"
for f in 1 2 aat control defaults dump global info order post_tree postorder preprocess valid; do SRC="$SRC $REPO/external/amd/src/amd_$f.c"; done
for s in $SRC; do o=$OUT/obj/$(basename $(dirname $(dirname $s)))_$(basename $s .c).o; echo "$CC $FL -w $DEF $INC -c $s -o $o || exit 255"; done | xargs -P 8 -I{} sh -c '{}'
OBJ=$(ls $OUT/obj/*.o)
$CC $FL -w $DEF $INC $H/driver.c $OBJ -Wl,--wrap=malloc,--wrap=free,--wrap=calloc,--wrap=realloc -lm -o $OUT/driver
