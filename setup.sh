#!/bin/bash
# Nothing is kept between runs: every check builds che from /repo's working
# tree.  This only verifies that the tools the checks need are there.
set -e
cd "$(dirname "$0")"
for t in python3 cargo gcc c99 git; do command -v $t >/dev/null || PATH=/root/.cargo/bin:$PATH command -v $t >/dev/null || { echo "missing $t"; exit 1; }; done
python3 -c 'import sys; assert sys.version_info >= (3, 9)'
mkdir -p evidence replays
echo ok
