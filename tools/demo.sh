#!/bin/bash
# Builds the library from /repo's sources with the demonstration and runs it. Exit 0: the property holds.
here=$(cd "$(dirname "$0")" && pwd)
w=$(mktemp -d) || exit 2
trap 'rm -rf "$w"' EXIT
# shellcheck disable=SC2046
gcc -g -O1 -fsanitize=address -fno-sanitize-recover=all -DSV_VENDOR_AXIS_COMMUNICATIONS -Ilib/src -Ilib/src/includes -Ilib -Ilib/vendors -I"$here" @EXTRA@ \
  "$here/demo.c" lib/src/*.c lib/src/legacy/*.c lib/vendors/axis-communications/*.c @PLUGIN@ -o "$w/demo" -lssl -lcrypto -lpthread @LIBS@ 2>"$w/err" || { cat "$w/err"; exit 2; }
ASAN_OPTIONS=detect_leaks=@LEAKS@ timeout 100 "$w/demo"
