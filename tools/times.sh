#!/bin/bash
# times.sh ID: core-seconds of each scenario in the last evidence.
python3 - "$(dirname "$0")/../evidence/$1.json" <<'P'
import json,sys
for s in json.load(open(sys.argv[1]))['coverage']['scenarios']: print(f"{s['core_seconds']:9.1f} {s['executions']:10d} {s['scenario']}")
P
