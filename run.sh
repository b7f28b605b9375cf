#!/bin/bash
# runs the given checks, prints a summary line or two each
cd "$(dirname "$0")"
for p in "$@"; do ./check.py $p 2>&1 | cut -c1-500 | head -${LINES_MAX:-8}; done
