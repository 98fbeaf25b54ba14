#!/bin/bash
# builds a small program against the sources of the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
for o in "-msse3" "-msse4.1 -DKLEIN_SSE_4_1"; do
  g++ -std=c++11 -O1 $o -w -I public "$here/demo.cpp" -o "$tmp/demo" || exit 2
  "$tmp/demo" || exit 1
done
exit $?
