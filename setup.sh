#!/bin/sh
# The checks build everything they need themselves; this only shows that the
# toolchain is there and warms its cache.
set -e
cd "$(dirname "$0")"
go version
python3 --version
python3 - <<'P'
import json
checks = json.load(open("checks.json"))
manifest = json.load(open("MANIFEST.json"))
assert {c["property"] for c in manifest["checks"]} == set(checks)
P
