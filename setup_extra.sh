#!/bin/bash
# instrumented builds for C27; a failure here only makes that check slower
cd "$(dirname "$0")" || exit 0
timeout 1200 python3 tools/sanitize.py build
exit 0
