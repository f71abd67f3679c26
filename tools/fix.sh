#!/bin/bash
# fix.sh PROP "commit message after fix:" "what failed"
set -e
cd /repo
bash /opt/vp/test.sh /tmp/out.json >/dev/null 2>&1 || true
python3 - <<'P'
import json,sys
b=json.load(open('/opt/vp/BASELINE.json')); d=json.load(open('/tmp/out.json'))
stable=b.get('stable') or b.get('passed') or b
if isinstance(stable,dict): stable=stable.get('passed') or list(stable)
miss=[t for t in stable if t not in set(d['passed'])]
print('passed',len(d['passed']),'missing',miss[:5]); sys.exit(1 if miss else 0)
P
git commit -qam "fix: $2"
H=$(git rev-parse --short HEAD)
python3 - "$1" "$H" "$3" <<'P'
import json,sys
p='/verif/known_findings.json'; d=json.load(open(p))
d['fixed'].append(f"fixed: property={sys.argv[1]} {sys.argv[2]} {sys.argv[3]}")
json.dump(d,open(p,'w'),indent=1); open(p,'a').write('\n')
P
echo "$H committed"
