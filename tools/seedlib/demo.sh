#!/bin/bash
# run in the root of the repository after its build
d=$(cd "$(dirname "$0")" && pwd)
t=$(mktemp -d /tmp/mdbx-demo.XXXXXX) || exit 2
trap 'rm -rf "$t"' EXIT
flags=
[ -f "$d/wraps" ] && for f in $(cat "$d/wraps"); do flags="$flags -Wl,--wrap=$f"; done
gcc -O1 -g -w -std=gnu11 -D_GNU_SOURCE -I"$PWD" -I"$d" "$d/demo.c" $flags _build/libmdbx-static.a -o "$t/demo" -pthread -lm || exit 2
cd "$t" && timeout -s KILL 200 "$t/demo" "$t"
