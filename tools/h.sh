#!/bin/bash
# tools/h.sh PROP HARNESS MODE... : run one harness and summarise
P=$1; H=$2; shift 2
export PYTHONPATH=/verif:/opt/venv/lib/python3.12/site-packages
for m in "$@"; do
echo "== $P $H $m"
timeout 400 /opt/veriftools/pyvenv/bin/python3 -m pyvc.job --prop $P --harness $H --mode $m ${EXTRA} > /tmp/o.$$.json 2>&1
python3 - /tmp/o.$$.json <<'X'
import json,sys
t=open(sys.argv[1]).read()
try:
    d=json.loads(t)
except Exception: print(t[-2500:]); sys.exit()
print({k:d.get(k) for k in ('status','paths','cut','infeasible','queries','runs','skipped','distinct','time') if d.get(k) is not None})
if d.get('msg'): print(d['msg'])
obs=(d.get('obligations') or {}).items()
print('  ok:',sum(o['n']==o['proved'] for k,o in obs),'names',sum(o['n'] for k,o in obs),'obligations')
for k,o in obs:
    if o['n']!=o['proved'] or len(obs)<14: print('  ', 'ok ' if o['n']==o['proved'] else 'BAD', o['n'],o['proved'],o['refuted'],o['unknown'],k)
for b in d.get('bad',[])[:6]: print('   BAD',str(b)[:900])
for b in d.get('fails') or []: print('   FAIL',str(b)[:900])
if d.get('bounded_notes'): print(d['bounded_notes'])
X
rm -f /tmp/o.$$.json
done
