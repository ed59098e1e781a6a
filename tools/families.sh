#!/bin/bash
# writes FAMILIES.md from ./check.sh list
cd "$(dirname "$0")/.." && ./check.sh list | python3 -c '
import sys
print("# Families\n\nWritten by `tools/families.sh` from `./check.sh list`; (quick) / (thorough) bounds.")
last=""
for l in sys.stdin:
    i,r=l.rstrip("\n").split(" ",1); n,s=r.split(" - ",1)
    if i!=last: print("\n## "+i+"\n"); last=i
    print("* **"+n+"** — "+s)
' >FAMILIES.new && mv FAMILIES.new FAMILIES.md
