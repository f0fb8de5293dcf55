import json
import sys
for r in json.load(open(sys.argv[1])):
    print('==', r['name'], 'paths', r['paths'], 'killed', r['killed'],
          'wall', round(r['wall'], 1), 'q', r['queries'], r['backends'])
    for x in r['problems']:
        print('   !!', x[:600])
    for o in r['obls']:
        print('    ', o['label'], '|', o['status'], o['vcs'],
              round(o['time'], 2), o['backends'], o['cover'],
              o['models'][:1] if o['status'] != 'proved' else '',
              (o['why'] if o['status'] != 'proved' else '')[:300])
