#!/bin/bash
# check.sh <property> [--thorough] [--replay FILE]
cd "$(dirname "$0")" && exec python3 run/check.py "$@"
