#!/bin/bash
# Builds the simulator against /repo's working tree and repeats a violation.
# usage: replay.sh <file>
file=$(realpath "$1") || exit 2
cd "$(dirname "$0")" || exit 2
id=$(sed -n 's/.*"property": *"\([A-Z0-9]*\)".*/\1/p' "$file" | head -1)
bash build.sh "$id" || exit 2
exec "./sim/target/bin/$id" replay "$file"
