#!/bin/bash
# vp/replay.sh <property> <entry> <replay file>: rebuilds the contract natively from /repo and runs it on the recorded input
cd "$(dirname "$0")/.." && exec python3-vt vp/replay.py "$@"
