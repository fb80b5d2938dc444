#!/bin/bash
# Generates TypeScript peers with the generator built from the working tree, runs the scenario in main.js against them.
here=$(cd "$(dirname "$0")" && pwd)
repo=$PWD
work=$(mktemp -d) || exit 9
trap 'rm -rf "$work"' EXIT
cp -r "$here/kit/." "$work/" && cp "$here/main.js" "$work/main.js" || exit 9
cd "$work" || exit 9
mkdir -p prod cons node_modules/clibri && mv user prod/gen || exit 9
for d in prod cons; do echo '{"name":"x","version":"1.0.0","dependencies":{}}' > $d/package.json; done
mkdir -p cons/gen
timeout 60 "$repo/cli/target/release/clibri" -s ts.prot -wf ts.workflow -cd "$work/cons/gen" -pd "$work/prod/gen" > gen.log 2>&1 || { cat gen.log; echo "generation failed"; exit 4; }
node transpile.js prod/gen prodjs && node transpile.js cons/gen consjs && node transpile.js clibri node_modules/clibri || { echo "no TypeScript"; exit 5; }
timeout 60 node main.js
