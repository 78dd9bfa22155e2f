#!/bin/sh
# builds the exporter and warms the extraction cache
cd "$(dirname "$0")" && exec python3-vt -c "
import sys; sys.path.insert(0,'vlib'); sys.setrecursionlimit(60000)
import program
P=program.load(verbose=False)
print('functions',len(P.functions),'records',len(P.records))
"
