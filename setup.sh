#!/bin/bash
# Builds the extractor (a libTooling program) next to its source.
cd "$(dirname "$0")" && exec python3 -B -c 'import sys; sys.path.insert(0, "."); from sa import ir; ir.build_tool()'
