#!/bin/bash
# dev helper: show the replays of a property
python3 - "$1" <<'P'
import json,sys,glob
for p in sorted(glob.glob('/verif/replays/%s-*.json'%sys.argv[1])):
    r=json.load(open(p)); d=r['detail']; tb=d.pop('traceback','')
    print(p, r['domain'], json.dumps(r['case'])[:300]); print('   ',r['key'],r['msg'][:1500]); print('   ',json.dumps(d)[:800]); print(tb[-700:])
P
