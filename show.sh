#!/bin/bash
# show the replays of the last run of one check: ./show.sh C01 [n]
cd "$(dirname "$0")" || exit 2
for f in replays/$1/*.json; do python3 - "$f" "${2:-600}" <<'P'
import json,sys
d=json.load(open(sys.argv[1])); n=int(sys.argv[2])
print('-----',sys.argv[1],d['space'],d['case']); print(d['what'])
for k in ('input','expected','observed'):
    if d[k]: print('  [%s]'%k, str(d[k])[:n])
P
done
