#!/usr/bin/env python3
"""Development tool: plants one bug (tools/bugs/<id>.py) in /repo, confirms it (tests, demonstration), runs the check, undoes it.
usage: seed.py ID [--nocheck] [--notest]"""
import json, os, subprocess, sys, runpy, shutil
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, V)


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def tests():
    base = json.load(open('/opt/vp/BASELINE.json'))
    sh('bash /opt/vp/build.sh')
    sh('bash /opt/vp/test.sh /tmp/seedout.json')
    out = json.load(open('/tmp/seedout.json'))
    return base, out


def main(i, opts):
    b = runpy.run_path(os.path.join(V, 'tools', 'bugs', i + '.py'))
    assert not sh('git -C /repo status --porcelain').stdout, 'dirty /repo'
    d = os.path.join(V, 'seeded', i)
    os.makedirs(d, exist_ok=True)
    for f, old, new in b['EDITS']:
        p = '/repo/' + f
        s = open(p, newline='').read()
        if s.count(old) != 1:
            raise SystemExit('%s: %d matches in %s of %r' % (i, s.count(old), f, old))
        open(p, 'w', newline='').write(s.replace(old, new))
    try:
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        open(d + '/demo.py', 'w').write("import sys\nsys.path.insert(0, '/opt/vp/runner')\nimport compat\ncompat.install()\nimport logging\nlogging.disable(logging.CRITICAL)\n" + b['DEMO'])
        open(d + '/demo.sh', 'w').write('#!/bin/bash\nd=$(cd "$(dirname "$0")" && pwd)\nexport JYTHONPATH=/repo/pyslet\nexec timeout 280 /opt/vp/runner/jython.sh "$d/demo.py"\n')
        json.dump({'property': b['PROPERTY'], 'needs': b['NEEDS'], 'what_it_breaks': b['BREAKS']}, open(d + '/meta.json', 'w'), indent=1)
        rep = []
        r = sh('bash %s/demo.sh' % d, cwd='/repo')
        rep.append('demo with bug: %d' % r.returncode)
        if r.returncode == 0:
            print(r.stdout[-1500:])
        if '--notest' not in opts:
            base, out = tests()
            bad = json.dumps(out)
            st = base['stable']
            names = set(st if isinstance(st, list) else st.keys())
            res = out.get('passed')
            got = set(res if isinstance(res, list) else (res or {}).keys())
            rep.append('tests lost: %s' % sorted(names - got)[:5])
        if '--nocheck' not in opts:
            for pid in [b['PROPERTY']] + b.get('ALSO', []):
                r = sh('python3 check.py %s' % pid, cwd=V)
                rep.append('check %s: %d %s' % (pid, r.returncode, [l for l in r.stdout.splitlines() if l.startswith('VIOLATION')][:1]))
                if r.returncode != 1:
                    print(r.stdout[-1500:])
    finally:
        sh('git -C /repo checkout -- .')
    r = sh('bash %s/demo.sh' % d, cwd='/repo')
    rep.append('demo without: %d' % r.returncode)
    if r.returncode:
        print(r.stdout[-2500:])
    print(i, '; '.join(rep))


for a in [x for x in sys.argv[1:] if not x.startswith('--')]:
    main(a, sys.argv)
