#!/bin/bash
# Builds everything the checks run; each check rebuilds incrementally from /repo's working tree.
set -e
cd "$(dirname "$0")/.."
. tools/env.sh
(cd harness && cargo build --offline -q)
(cd harness-df && cargo build --offline -q)
python3 tools/pycheck.py C22 --build
python3 tools/memcheck.py C23 --build
