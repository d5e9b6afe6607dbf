"""plant.py ID PROP: reads seeded/ID/edit.py-like instructions from stdin as
JSON {"file":.., "edits":[[old,new],..], "needs":.., "breaks":.., "demo":..,
"standins": bool}; writes the files of /verif/seeded/ID (patch made in a
scratch worktree of /repo's HEAD)"""
import json
import os
import shutil
import subprocess
import sys
import tempfile

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
DEMO = '''#!/bin/bash
# run with the current directory in the tree to try
here=$(cd "$(dirname "$0")" && pwd)
export JYTHONPATH=/opt/jylib:$PWD:$here/si LC_ALL=C.UTF-8
exec jython -B -Dpython.cachedir.skip=true "$here/demo.py"
'''


def plant(id, prop, file, edits, needs, breaks, demo, standins=True):
    d = os.path.join(HERE, 'seeded', id)
    shutil.rmtree(d, ignore_errors=True)
    os.makedirs(d)
    w = tempfile.mkdtemp(prefix='plant.')
    try:
        tree = os.path.join(w, 't')
        subprocess.check_call(['git', 'clone', '-q', '/repo', tree])
        if isinstance(file, str):
            edits = [(file, old, new) for old, new in edits]
        for f, old, new in edits:
            p = os.path.join(tree, 'openquake/commonlib', f)
            if f.startswith('bin/'):
                p = os.path.join(tree, f)
            s = open(p).read()
            assert s.count(old) == 1, (id, f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', '-C', tree, 'diff'])
        assert diff
        open(os.path.join(d, 'patch.diff'), 'wb').write(diff)
    finally:
        shutil.rmtree(w)
    with open(os.path.join(d, 'demo.sh'), 'w') as f:
        f.write(DEMO)
    with open(os.path.join(d, 'demo.py'), 'w') as f:
        f.write(demo.lstrip('\n'))
    if standins:
        shutil.copytree(os.path.join(HERE, 'standins'), os.path.join(d, 'si'),
                        ignore=shutil.ignore_patterns(
                            '__pycache__', 'examples', 'README', '*.class'))
    with open(os.path.join(d, 'meta.json'), 'w') as f:
        json.dump({'property': prop, 'needs': ' '.join(needs.split()),
                   'what_it_breaks': ' '.join(breaks.split())}, f, indent=1)
        f.write('\n')
    print('planted', id)
