#!/bin/bash
# builds the extractor and extracts the program once
cd "$(dirname "$0")" && python3 -c 'import sys; sys.path.insert(0,"sa"); import ir; p=ir.load(); print(len(p.F),"functions")'
