#!/bin/bash
# Builds every harness and the library under test from /repo into /verif/build.
cd "$(dirname "$0")" && exec python3 lib/setup.py "$@"
