# text helper for demos: build a che program, compare stdout
DEMO='''#!/bin/bash
# exit 0: the program prints what the source says
D=$(cd "$(dirname "$0")" && pwd)
T=$(mktemp -d); trap 'rm -rf "$T"' EXIT
mkdir "$T/home" "$T/home/tmp" && cp -r /repo/lib "$T/home/lib"
export CHELANG_HOME="$T/home"
cp "$D"/*.c "$T/"
cd "$T" && /repo/target/debug/che build main.c prog >log 2>&1 || { cat log; exit 1; }
timeout 20 ./prog > out 2>&1
diff out "$D/expected"
'''
