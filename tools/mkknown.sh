#!/bin/bash
# Rewrites known_findings.txt: tools/findings.txt (listed findings) + fixed lines.
D=$(cd "$(dirname "$0")" && pwd)
{ cat "$D/findings.txt"; python3 "$D/mkfixed.py"; } > "$D/../known_findings.txt"
