#!/bin/sh
# builds the fact extractor and extracts the facts of the current tree (the checks repeat both when needed)
set -e
cd "$(dirname "$0")"
PYTHONHASHSEED=0 python3 -c "
import sys; sys.path.insert(0,'lib')
import facts
P=facts.load(); print(len(P.units),'translation units',len(P.funcs),'functions')"
