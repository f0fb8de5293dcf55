#!/bin/bash
# dev helper: run some contracts on the plain code
cd "$(dirname "$0")" && /opt/venv/bin/python pyvc/runner.py conc $1 /tmp/conc.$1.json quick ${3:-1} $2 && /opt/venv/bin/python -c "
import json
for r in json.load(open('/tmp/conc.$1.json')):
    print(r['name'], 'runs', r['runs'], 'skip', r['skipped'], 'ens', r['ensures'], 'wall', round(r['wall'],1), r.get('error',''))
    for f in r['fails']: print('   FAIL', f['label'], f['detail'][:400], str(f['inputs'])[:400])
"
