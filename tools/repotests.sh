# prints stable tests not passing
bash /opt/vp/build.sh >/dev/null 2>&1 || echo BUILD FAILED
bash /opt/vp/test.sh /tmp/o.json >/dev/null 2>&1
python3 - <<'P'
import json
o=json.load(open('/tmp/o.json')); b=json.load(open('/opt/vp/BASELINE.json'))
def s(x): return set(x) if isinstance(x,list) else set(k for k,v in x.items())
ps=s(o.get('passed',[])); st=s(b.get('stable',b.get('passed',b.get('tests',[]))))
print('stable',len(st),'missing',sorted(st-ps)[:10], len(st-ps))
P
