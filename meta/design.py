"""Writes DESIGN.md from DESIGN.head.md, the harness registry, props.py, known_findings.txt and seeded/*/meta.json:
`/opt/venv/bin/python meta/design.py` (run with PYGSTI_REPO as check.py)."""
import importlib, json, os, sys, glob, re
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.environ.get('PYGSTI_REPO', '/repo')); sys.path.insert(0, V); sys.path.insert(0, V + '/meta')
import warnings; warnings.filterwarnings('ignore')
from props import PROPS
sys.setrecursionlimit(20000)
from notes import NOTES, SEEDS
import symex.env
symex.env.setup()
from symex import harness as H
out = [open(V + '/meta/DESIGN.head.md').read().rstrip(), '', '## Properties', '']
known = [l.strip() for l in open(V + '/known_findings.txt') if l.strip()]
for p in PROPS:
    out.append('### %s – %s' % (p['id'], p['title']))
    out.append('')
    f = V + '/checks/%s.py' % p['id'].lower()
    if not os.path.exists(f):
        out += ['Not applicable: ' + p['na'], '']
        continue
    del H.REGISTRY[:]
    m = importlib.import_module('checks.' + p['id'].lower())
    hs = list(H.REGISTRY)
    enc = sorted({e for h in hs for e in h.encodes})
    out.append('*Specified:* ' + p['statement'])
    out.append('')
    n = NOTES.get(p['id'])
    if n: out += ['*Oracle / how decided:* ' + n, '']
    out.append('*Harnesses and bounds* (quick tier unless marked `+`, which only the thorough tier runs):')
    for h in hs:
        out.append('- `%s` (%d instances%s): %s' % (h.name, len(h.params), ', ' + h.logic if h.logic else '', h.bounds or 'see the parameters in the file'))
    out.append('')
    for a in m.META.get('assumptions', []):
        out.append('*Assumed / outside the bounds:* ' + a)
        out.append('')
    out.append('*Functions encoded* (symbolically executed from the current source): ' + ', '.join('`%s`' % e for e in enc))
    out.append('')
    fx = [l for l in known if 'property=%s ' % p['id'] in l]
    for l in fx:
        if l.startswith('fixed:'): out.append('- defect repaired: ' + l.split(' ', 2)[2])
        else: out.append('- **known finding (recorded, not repaired):** ' + l.split(' ', 2)[2])
    if fx: out.append('')
out += ['## Planted changes (`seeded/`)', '', 'Each was written from the property text and the code, verified in a scratch copy (builds, stable tests pass, demo fails only with the change).', '',
        '| id | property | needs | caught by |', '|---|---|---|---|']
for d in sorted(glob.glob(V + '/seeded/*/')):
    k = os.path.basename(d[:-1]); mt = json.load(open(d + 'meta.json'))
    out.append('| %s | %s | %s | %s |' % (k, mt['property'], mt['needs'].replace('|', '/'), SEEDS.get(k, mt['property'] + ' (quick)')))
out += ['', open(V + '/meta/DESIGN.tail.md').read().rstrip(), '']
open(V + '/DESIGN.md', 'w').write('\n'.join(out))
