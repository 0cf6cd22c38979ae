#!/bin/bash
# build.sh VARIANT DEST: copy /repo's working tree to DEST/src and build the
# libraries and main.o there.  VARIANT: plain | asan.  Nothing is written to /repo.
set -u
export PATH=/usr/local/sbin:/usr/local/bin:/usr/sbin:/usr/bin:/sbin:/bin
export LC_ALL=C
unset MAKEFLAGS MFLAGS MAKELEVEL MODE CFLAGS CPPFLAGS CC
variant=$1; dest=$2; repo=${HOB3L_REPO:-/repo}
mkdir -p "$dest" || exit 2
mkdir -p "$dest/src" || exit 2
# everything but build products, history and the (large) test data
(cd "$repo" && tar cf - --exclude=./out --exclude=./.git --exclude=./img .) | tar xf - -C "$dest/src" || exit 2
cd "$dest/src" || exit 2
rm -f .mode.d
case "$variant" in
  plain) cc="gcc" ;;
  asan)  cc="gcc -fsanitize=address,undefined -fno-sanitize=leak -fno-sanitize-address-use-after-scope -fno-sanitize-recover=undefined -fno-omit-frame-pointer -g -O1" ;;
  *) echo "unknown variant $variant" >&2; exit 2 ;;
esac
make -j8 MODE= TARGET=gcc CC="$cc" -o script/mkmat -o script/mkrotmat lib bin > "$dest/build.log" 2>&1 || {
  tail -30 "$dest/build.log" >&2; exit 2; }
b=out/bin
objcopy --redefine-sym main=hob3l_main $b/hob3l/main.o "$dest/hob3l_main.o" || exit 2
exit 0
