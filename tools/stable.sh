#!/bin/bash
# stable.sh DIR: run the stable tests of a copy of /repo; prints OK or what broke
T=$(mktemp -d)
sed "s#/repo#$1#g" /opt/vp/test.sh > $T/test.sh
bash $T/test.sh $T/out.json >/dev/null 2>&1
python3 -c "
import json
b=json.load(open('/opt/vp/BASELINE.json')); t=json.load(open('$T/out.json'))
m=sorted(set(b['stable'])-set(t['passed'])); print('OK' if not m else 'BROKEN %d %s'%(len(m),m[:4]))"
rm -r "$T"
