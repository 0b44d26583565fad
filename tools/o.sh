#!/bin/bash
# o.sh pid [budget] : run oracle gen
cd /verif; export PYVC_REPO=${PYVC_REPO:-/repo}  PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0 MPLBACKEND=Agg MPLCONFIGDIR=/opt/mplconfig
mkdir -p /tmp/osc; cd /tmp/osc
echo "{\"cases\":[],\"gen\":true,\"seed\":1,\"tier\":\"${3:-quick}\",\"budget\":${2:-60}}" > /tmp/osc/req.json
/opt/venv/bin/python /verif/oracle/run.py $1 /tmp/osc/req.json /tmp/osc/out.json 2>&1 | tail -5
python3 - <<'P'
import json
r=json.load(open('/tmp/osc/out.json'))
print({k:v for k,v in r.items() if k not in('failures','replayed','error_sample')})
for e in r['error_sample'][:3]: print('ERR',str(e)[:500])
seen=set()
for f in r['failures']:
    if f['key'] in seen: continue
    seen.add(f['key']); print('FAIL',f['key'],'|',f['detail'][:160],'|',json.dumps(f['case'])[:10])
P
