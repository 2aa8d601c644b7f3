#!/bin/bash
# developer helper: run_all.sh BUDGET PROPS...
b=$1; shift
for p in "$@"; do ( PYTHONPATH=/repo PYTHONDONTWRITEBYTECODE=1 /opt/venv/bin/python /verif/replay/run.py --prop $p --seed ${SEED:-1} --budget $b --out /tmp/w/o_$p.json; python3 -c "
import json;d=json.load(open('/tmp/w/o_$p.json'));print('$p',d['evaluations'],*['\n   %s %s'%(f['message'],f['case']) for f in d['failures'][:3]])" ) & done; wait
