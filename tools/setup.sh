#!/bin/sh
# Builds the harness in both profiles so that the checks only rebuild what changed.
cd "$(dirname "$0")/.." || exit 1
exec python3 -B tools/setup.py
