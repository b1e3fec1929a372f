#!/bin/bash
# Compile the TLC operator overrides (offline; output is git-ignored). Idempotent.
cd "$(dirname "$0")" || exit 2
out=build/classes
if [ ! -f $out/vt/BigOv.class ] || [ java/vt/BigOv.java -nt $out/vt/BigOv.class ]; then
  tmp=build/classes.$$
  mkdir -p $tmp
  javac -nowarn -cp /opt/veriftools/tla/tla2tools.jar -d $tmp java/vt/BigOv.java || exit 2
  rm -rf "$PWD/$out"; mv $tmp $out || exit 2
fi
python3 lib/selfcheck.py || exit 2
