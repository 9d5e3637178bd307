#!/bin/bash
# Nothing is kept between runs: every check builds its harness from /repo's current tree.
set -e
cd "$(dirname "$0")/.."
mkdir -p build evidence replays
g++ --version | head -1
python3 -c 'import json; print(len(json.load(open("spec.json"))), "checks")'
