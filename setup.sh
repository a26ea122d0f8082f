#!/bin/sh
# Nothing is kept between runs: every check generates, verifies and builds what it needs from /repo.
cd "$(dirname "$0")" || exit 1
mkdir -p build evidence
command -v verus >/dev/null && command -v cargo >/dev/null && python3 -c 'import sys; sys.exit(sys.version_info < (3, 8))'
