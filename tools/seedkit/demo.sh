#!/bin/sh
# run with cwd /repo after the build: 0 when the property holds in this demonstration
here=$(cd "$(dirname "$0")" && pwd)
W=$(mktemp -d) || exit 2
trap 'rm -rf "$W"' EXIT
g++ -std=c++11 -O0 -w -I"$here" -Isrc -I_build -I_build/src -I_build/build/include "$here/demo.cpp" -o "$W/demo" -L_build/build/lib -lvmime -Wl,-rpath,"$PWD/_build/build/lib" -lpthread || exit 2
mkdir "$W/scratch" && cd "$W/scratch" && LANG=C.UTF-8 "$W/demo" "$W/scratch"
r=$?
[ $r = 0 ] || echo "demonstration failed ($r)"
exit $r
