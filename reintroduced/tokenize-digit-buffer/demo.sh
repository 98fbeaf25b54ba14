#!/bin/bash
# builds a small program against the sources of the current directory and runs it
here=$(cd "$(dirname "$0")" && pwd)
tmp=$(mktemp -d) || exit 2
trap 'rm -r "$tmp"' EXIT
for f in ga poly parser repl; do g++ -std=c++17 -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -msse4.2 -w -I sym -c sym/$f.cpp -o "$tmp/$f.o" || exit 2; done
g++ -std=c++17 -O1 -fsanitize=address,undefined -fno-sanitize-recover=all -msse4.2 -w -I sym "$here/demo.cpp" "$tmp"/*.o -o "$tmp/demo" || exit 2
timeout 60 "$tmp/demo"
exit $?
