#!/usr/bin/env python3
"""mkseed.py [ID...]: writes /verif/seeded/<id>/ from tools/bugs/*.py.

A bug is bug(id, property, file, old, new, needs, breaks, demo): `old` must
occur once in /repo/<file>; the patch is made against HEAD in a scratch copy.
"""
import glob
import json
import os
import subprocess
import sys
import tempfile
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('SEED_REPO', '/repo')
BUGS = []
HEAD = '''import os
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.getcwd())
import logging
import warnings
warnings.filterwarnings('ignore')
logging.disable(logging.WARNING)
'''


def bug(id, property, file, old='', new='', needs='', breaks='', demo=''):
    edits = [(file, old, new)] if isinstance(file, str) else file
    BUGS.append((id, property, edits, needs, breaks, demo))


def main():
    for f in sorted(glob.glob(os.path.join(HERE, 'tools/bugs/*.py'))):
        exec(compile(open(f).read(), f, 'exec'), dict(bug=bug))
    for id, p, edits, needs, breaks, demo in BUGS:
        if len(sys.argv) > 1 and id not in sys.argv[1:]:
            continue
        d = os.path.join(HERE, 'seeded', id)
        os.makedirs(d, exist_ok=True)
        patch = ''
        files = {}
        for file, old, new in edits:
            src = files.get(file) or open(REPO + '/' + file).read()
            assert src.count(old) == 1, (id, file, src.count(old))
            files[file] = src.replace(old, new)
        with tempfile.TemporaryDirectory() as t:
            for file, new in files.items():
                a = os.path.join(t, 'n')
                open(a, 'w').write(new)
                r = subprocess.run(
                    ['diff', '-u', '--label', 'a/' + file, '--label',
                     'b/' + file, REPO + '/' + file, a],
                    capture_output=True, text=True)
                patch += f'diff --git a/{file} b/{file}\n' + r.stdout
        open(d + '/patch.diff', 'w').write(patch)
        open(d + '/demo.py', 'w').write(HEAD + demo.lstrip('\n'))
        open(d + '/demo.sh', 'w').write(
            '#!/bin/bash\n# exit 0: the property holds on this input\n'
            'export PYTHONDONTWRITEBYTECODE=1 HF_HUB_OFFLINE=1\n'
            'exec /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
        json.dump(dict(property=p, needs=needs, what_it_breaks=breaks),
                  open(d + '/meta.json', 'w'), indent=1)


main()
