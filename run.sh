#!/bin/bash
# run.sh check <ID> [quick|thorough] | replay <file> | setup
export HOME="${HOME:-/root}"
export PATH="$PATH:/usr/local/bin:/usr/bin:/bin"
cd "$(dirname "$0")" || exit 2
exec python3 lib/check.py "$@"
