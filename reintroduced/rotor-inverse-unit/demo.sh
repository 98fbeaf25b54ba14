#!/bin/bash
# builds a small program against the sources of the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
g++ -std=c++17 -O2 -msse3 -w -I public "$here/demo.cpp" -o "$tmp/demo" || exit 2
"$tmp/demo"
exit $?
