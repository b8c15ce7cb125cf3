"""Plants, verifies and stores a seeded bug (development only; no check uses it).

    python3 tools/plant.py SPECFILE [ID ...]

SPECFILE is a Python file defining BUGS: a list of dicts with id, property, edits [(file, old, new)],
needs, breaks, demo. Each bug is applied to /repo, built, tested against the baseline, run against
its demo, then against its check, and undone.
"""
import json, os, runpy, subprocess, sys

REPO = '/repo'
SEEDED = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), 'seeded')


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def undo():
    sh('git -C /repo checkout -- .')


def stable():
    r = sh('bash /opt/vp/test.sh /tmp/w/plant.json')
    base = json.load(open('/opt/vp/BASELINE.json'))
    out = json.load(open('/tmp/w/plant.json'))
    want = set(base.get('stable') or base.get('passed') or base.get('pass'))
    got = set(out.get('passed') or out.get('pass'))
    return sorted(want - got)


def plant(b):
    d = os.path.join(SEEDED, b['id'])
    os.makedirs(d, exist_ok=True)
    open(d + '/demo.py', 'w').write(b['demo'].strip() + '\n')
    open(d + '/demo.sh', 'w').write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 PYTHONHASHSEED=0\n'
                                    'exec timeout 120 /opt/venv/bin/python "$(dirname "$0")/demo.py"\n')
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']},
              open(d + '/meta.json', 'w'), indent=1)
    assert not sh('git -C /repo status --porcelain').stdout.strip(), '/repo is dirty'
    sh('bash /opt/vp/build.sh')
    r = sh('bash %s/demo.sh' % d, cwd=REPO)
    if r.returncode:
        print(b['id'], 'DEMO FAILS ON CLEAN TREE', r.stdout[-800:]); return
    try:
        for f, old, new in b['edits']:
            p = os.path.join(REPO, f)
            s = open(p).read()
            assert s.count(old) == 1, (b['id'], f, s.count(old), old)
            open(p, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        r = sh('bash /opt/vp/build.sh')
        if r.returncode:
            print(b['id'], 'BUILD FAILS', r.stdout[-800:]); return
        bad = stable()
        if bad:
            print(b['id'], 'TESTS FAIL', bad); return
        r = sh('bash %s/demo.sh' % d, cwd=REPO)
        if r.returncode == 0:
            print(b['id'], 'DEMO PASSES WITH BUG'); return
        demo = r.stdout.strip().splitlines()[-1:]
        r = sh('VERIF_TIER=quick VERIF_SEED=1 python3-vt check.py %s' % b['property'], cwd=os.path.dirname(SEEDED))
        print(b['id'], b['property'], {1: 'CAUGHT', 0: 'MISSED'}.get(r.returncode, 'EXIT %d' % r.returncode),
              demo, r.stdout.strip().splitlines()[-3:])
    finally:
        undo()


if __name__ == '__main__':
    bugs = runpy.run_path(sys.argv[1])['BUGS']
    for b in bugs:
        if len(sys.argv) < 3 or b['id'] in sys.argv[2:]:
            plant(b)
            sys.stdout.flush()
    sh('bash /opt/vp/build.sh')
