#!/bin/bash
# Run all (or the named) checks of a tier and print one line each: runall.sh quick [C01 ...]
cd "$(dirname "$0")/.."
tier=$1; shift
for c in ${@:-$(ls mc/props | sed -n 's/^c\([0-9][0-9]\).py/C\1/p')}; do
  out=$(/opt/venv/bin/python -m mc $c --tier $tier 2>&1); rc=$?
  echo "$c rc=$rc $(echo "$out" | grep -E '^C[0-9]+ (quick|thorough):' | cut -c1-200) $(echo "$out" | grep -c '^KNOWN-FINDING') known $(echo "$out" | grep -m1 '^VIOLATION')"
done
