#!/bin/bash
# Nothing is kept between runs: every check compiles the TLC operator module
# itself.  This only verifies that the toolchain is there.
set -e
cd "$(dirname "$0")"
out=$(mktemp -d)
javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d "$out" java/Num.java
rm -r -- "$out"
