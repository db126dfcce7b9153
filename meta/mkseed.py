"""helper for writing seeded/<id>: mk(id, property, file, [(old, new)...], needs, breaks, demo)"""
import json, os, subprocess, sys, tempfile, shutil
def mk(id, prop, file, edits, needs, breaks, demo):
    src = open(os.environ.get('PYGSTI_REPO', '/repo') + '/' + file).read()
    new = src
    for a, b in edits:
        assert new.count(a) == 1, (id, new.count(a), a)
        new = new.replace(a, b)
    d = os.environ.get('VDIR', '/verif') + '/seeded/' + id
    os.makedirs(d, exist_ok=True)
    t = tempfile.mkdtemp()
    for side, txt in (('a', src), ('b', new)):
        os.makedirs(os.path.dirname(t + '/' + side + '/' + file))
        open(t + '/' + side + '/' + file, 'w').write(txt)
    p = subprocess.run(['diff', '-u', 'a/' + file, 'b/' + file], cwd=t, capture_output=True, text=True).stdout
    shutil.rmtree(t)
    open(d + '/patch.diff', 'w').write(p)
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n# run in the repository, after build.sh\nexport PYTHONPATH="$PWD"\nexec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
    open(d + '/demo.py', 'w').write(demo.strip() + '\n')
