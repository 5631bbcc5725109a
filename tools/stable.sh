bash /opt/vp/build.sh >/tmp/b.log 2>&1 || { echo BUILD FAILED; tail -20 /tmp/b.log; }
bash /opt/vp/test.sh /tmp/t.json >/dev/null 2>&1
python3 - <<'P'
import json
b=json.load(open('/opt/vp/BASELINE.json'));t=json.load(open('/tmp/t.json'))
k=[x for x in b if 'stable' in x or 'pass' in x][0] if isinstance(b,dict) else None
base=b[k] if k else b
print(k,len(base),'missing:',[x for x in base if x not in t['passed']])
P
