#!/bin/bash
# Runs app.txt through the threaded application just built, under many schedules, and looks for what must not happen
H="$(cd "$(dirname "$0")" && pwd)"
B=/repo/_build/cpp/src
W="$(mktemp -d)"
trap 'rm -rf "$W"' EXIT
I=""; L=""
for d in utils value expr intfc exec xml-parser app-framework; do I="$I -I/repo/src/$d"; done
for d in app-framework xml-parser exec intfc expr value utils; do
  L="$L $(ls $B/$d/*.so | head -1) -Wl,-rpath,$B/$d"; done
F="-w -include cstdint -include cstring -pthread -I$H $I"
for s in app-framework/ExecApplication app-framework/InterfaceManager app-framework/SerializedInputQueue utils/ThreadSemaphore; do
  g++ -O1 -fsanitize=thread -fPIC $F -c /repo/src/$s.cc -o "$W/$(basename $s).o" || exit 2
done
g++ -O0 $F -c "$H/appdriver.cc" -o "$W/appdriver.o" || exit 2
g++ -rdynamic -pthread "$W/appdriver.o" "$W"/[A-Z]*.o -o "$W/appdriver" $L -lpugixml -ldl -lrt -lm || exit 2
"$W/appdriver" "$H/app.txt" "$W/out" ${RUNS:-600} 7 > /dev/null 2>&1 || exit 2
python3 "$H/demo_app.py" "$W/out"
