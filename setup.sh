#!/bin/sh
# Nothing to build ahead: the checks import /repo's current sources.
cd "$(dirname "$0")" && exec python3 run.py --list >/dev/null
