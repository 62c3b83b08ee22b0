#!/bin/bash
# Replaces the table of planted bugs at the end of DESIGN.md.
cd "$(dirname "$0")/.." || exit 1
n=$(grep -n '^| planted bug' DESIGN.md | cut -d: -f1)
{ head -n $((n-1)) DESIGN.md; python3 tools/seedtable.py; } > DESIGN.new && mv DESIGN.new DESIGN.md
