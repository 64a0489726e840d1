#!/bin/bash
# Build the harness once and see that TLC works (checks rebuild what they need).
set -e
cd "$(dirname "$0")/.."
(cd harness && RUSTFLAGS=-Awarnings cargo build --offline --quiet && RUSTFLAGS=-Awarnings cargo build --offline --quiet --bin wire --features wire)
d=$(mktemp -d)
javac -cp /opt/veriftools/tla/tla2tools.jar -d "$d" spec/java/Sha.java
rm -rf "$d"
python3 -B -c 'import json; json.load(open("MANIFEST.json"))'
echo ready
