"""Rewrites the per-property section of DESIGN.md."""
import importlib, os, sys
ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path[:0] = [ROOT, os.path.join(ROOT, 'tools')]
from meta import P
from how import HOW
A, B = '<!-- per property -->', '<!-- end -->'
out = []
for p in sorted(P, key=lambda p: p['id']):
    m = importlib.import_module('props.' + p['id'].lower())
    out.append('### %s. %s\n\n%s Why tests cannot: %s.\n\nQuick: %s. Thorough: %s.\n\nAssumptions: %s.\n' % (
        p['id'], p['title'], HOW[p['id']], p['why'], m.BOUNDS['quick'], m.BOUNDS['thorough'], '; '.join(m.ASSUMPTIONS)))
f = os.path.join(ROOT, 'DESIGN.md')
s = open(f).read()
i, j = s.index(A) + len(A), s.index(B)
open(f, 'w').write(s[:i] + '\n' + '\n'.join(out) + s[j:])
import glob, json
s = open(f).read()
A, B = '<!-- bugs -->', '<!-- end bugs -->'
rows = ['| bug | property | what it needs | caught |', '|---|---|---|---|']
for d in sorted(glob.glob(os.path.join(ROOT, 'seeded', '*', 'meta.json'))):
    m = json.load(open(d))
    rows.append('| %s | %s | %s | %s |' % (os.path.basename(os.path.dirname(d)), m['property'], m['needs'], m.get('caught', 'yes')))
i, j = s.index(A) + len(A), s.index(B)
open(f, 'w').write(s[:i] + '\n' + '\n'.join(rows) + '\n' + s[j:])
