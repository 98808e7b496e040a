#!/bin/bash
# cwd: the repository, built.  Compiles the sources of the working tree with demo.c and runs the result.
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 1
trap 'rm -rf "$tmp"' EXIT
skip=" $(sed -n 's/^#include "\.\.\/src\/\([a-z_0-9]*\.c\)".*/\1/p' "$here/demo.c" | tr '\n' ' ') "
src=
for f in conf conn digest log md5 mutex_posix pearson proxy proxy_client proxy_conn rand regex registration thread_posix worker; do
	case "$skip" in *" $f.c "*) ;; *) src="$src src/$f.c" ;; esac
done
gcc -w -O1 -g -std=gnu99 $CFLAGS_EXTRA -DOPENELP_MAJOR_VERSION=0 -DOPENELP_MINOR_VERSION=9 -DOPENELP_PATCH_VERSION=4 \
	-DOPENELP_VERSION=0.9.4-dev -DOPENELP_EXTRA_VERSION=dev -DOPENELP_CONFIG_HINT=../etc/ELProxy.conf \
	-DPCRE2_CODE_UNIT_WIDTH=8 -DHAVE_SYSLOG=1 -DOPENELP_API= -Iinclude -Isrc -I"$here" \
	$(cat "$here/ldflags" 2>/dev/null) -o "$tmp/demo" "$here/demo.c" $src -lpcre2-8 -lpthread || { echo "demo does not compile"; exit 1; }
cd "$tmp" && TMPDIR="$tmp" timeout 120 ./demo
r=$?
[ $r = 0 ] && echo PASS
exit $r
