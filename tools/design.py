"""Writes DESIGN.md from tools/DESIGN.in.md and the sources of the planted changes."""
import glob, importlib, os, sys
H = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(H, 'bugs'))
s = open(os.path.join(H, 'DESIGN.in.md')).read()
rows = ['| change | caught by | what it breaks | needs |', '|---|---|---|---|']
for f in sorted(glob.glob(os.path.join(H, 'bugs', 'B*.py'))):
    n = os.path.basename(f)[:-3]
    if os.path.exists(os.path.join(H, '..', 'seeded', n, 'meta.json')):
        m = importlib.import_module(n)
        rows.append('| %s | %s | %s | %s |' % (n, m.PROPERTY, m.BREAKS, m.NEEDS))
open(os.path.join(H, '..', 'DESIGN.md'), 'w').write(s.replace('@@BUGS@@', '\n'.join(rows)).replace('@@MORE@@\n\n', ''))
