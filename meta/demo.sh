#!/bin/sh
# Builds demo.c (beside this file) with the library sources of the current directory and runs it in a scratch directory.
d=$(cd "$(dirname "$0")" && pwd); t=$(mktemp -d) || exit 99; trap 'rm -rf "${t:?}"' EXIT
S=$(ls "$PWD"/modules/core/src/c_src/*.c "$PWD"/modules/process/src/c_src/*.c "$PWD"/modules/algorithm/src/*.c "$PWD"/modules/highgui/src/draw.c)
I="-I$PWD/modules/core/include -I$PWD/modules/process/include -I$PWD/modules/algorithm/include -I$PWD/modules/highgui/include -I/usr/include/gdal -I/usr/include/SDL"
grep -q satellite "$d/demo.c" && { S="$S $PWD/modules/satellite/src/satellite_orbit.c"; I="$I -I$PWD/modules/satellite/include"; }
gcc -g -O0 -w -fsanitize=address -DUSE_SDL=1 -DX11_switch=1 -D_cplusplus -Dgdal_switch=1 $I "$d/demo.c" $S -lm -o "$t/demo" || exit 98
cd "$t" && ASAN_OPTIONS=detect_leaks=1 ./demo
