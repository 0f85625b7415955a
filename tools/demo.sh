#!/bin/bash
# Plays scenario.txt through the executive just built and compares with expect.json
H="$(cd "$(dirname "$0")" && pwd)"
B=/repo/_build/cpp/src
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
I=""; L=""
for d in utils value expr intfc exec xml-parser app-framework; do I="$I -I/repo/src/$d"; done
for d in app-framework xml-parser exec intfc expr value utils; do
  L="$L $(ls $B/$d/*.so | head -1) -Wl,-rpath,$B/$d"; done
g++ -O0 -w -include cstdint -include cstring -pthread -I"$H" $I "$H/driver.cc" -o "$W/driver" $L -lpugixml -ldl -lrt -lm || exit 2
python3 "$H/demo_run.py" "$W/driver" "${1:-check}"
