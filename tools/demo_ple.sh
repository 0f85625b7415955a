#!/bin/bash
# Compiles the programs here with /repo's compiler and stylesheets, runs them in the executive just built, and
# compares what they do with expect.json
H="$(cd "$(dirname "$0")" && pwd)"
B=/repo/_build/cpp/src
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
cp -r "$H" "$W/d"
I=""; L=""
for d in utils value expr intfc exec xml-parser app-framework; do I="$I -I/repo/src/$d"; done
for d in app-framework xml-parser exec intfc expr value utils; do
  L="$L $(ls $B/$d/*.so | head -1) -Wl,-rpath,$B/$d"; done
D=driver; [ -e "$H/ext.txt" ] && D=extdriver
g++ -O0 -w -include cstdint -include cstring -pthread -I"$H" $I "$H/$D.cc" -o "$W/driver" $L -lpugixml -ldl -lrt -lm || exit 2
python3 "$W/d/demo_ple.py" "$W/driver" "$W" "$H" "${1:-check}"
