#!/bin/sh
# Compares the stand-in with the installed yaml-cpp (whose NodeType is a struct; its header is overridden).
set -e
here=$(cd "$(dirname "$0")/.." && pwd)
w=$(mktemp -d)
trap 'rm -rf "$w"' EXIT
g++ -std=c++17 "$here/tools/yaml_conform.cpp" -lyaml-cpp -o "$w/real"
g++ -std=c++17 -DSTANDIN -I"$here/shim" "$here/tools/yaml_conform.cpp" -o "$w/standin"
"$w/real" > "$w/a"
"$w/standin" > "$w/b"
diff "$w/a" "$w/b" && echo "the stand-in agrees with yaml-cpp ($(wc -l < "$w/a") observations)"
