#!/bin/bash
python3 /verif/gen_lib.py
# dev.sh build | dev.sh run HARNESS [secs]
cd /verif
case $1 in
build) python3 -c "import check; check.build_all()" ;;
run) mkdir -p /tmp/o; for h in "${@:2}"; do rm -rf /tmp/o/$h; mkdir -p /tmp/o/$h; timeout 400 .build/nksym -o /tmp/o/$h -j 8 -t ${T:-120} --max-violations ${MV:-3} --max-instr 400000000 .build/harness.bc $h > /tmp/o/$h.out 2>&1; python3 - $h <<'P'
import json,sys
h=sys.argv[1]
try:
    r=json.load(open('/tmp/o/%s/result.json'%h))
except Exception: print(h,'FAILED'); print(open('/tmp/o/%s.out'%h).read()[-800:]); sys.exit()
print(h,{k:r[k] for k in('paths','pruned','panics','violations','queries','checks','checks_symbolic','solver_s','wall_s','covers')})
n=0
for l in open('/tmp/o/%s/log.jsonl'%h):
    v=json.loads(l)
    if v['kind']!='sample' and n<4: n+=1; print('  ',v['kind'],v.get('what','')[:300],v.get('loc','')[:200],str(v.get('inputs'))[:200])
P
done;;
esac
