#!/bin/bash
# run.sh PROPERTY [--thorough]
cd "$(dirname "$0")" && exec python3 sa/fw.py "$@"
