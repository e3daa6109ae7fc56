#!/usr/bin/env python3
"""plant(id, prop, edits, demo, needs, breaks): makes /verif/seeded/<id>, confirms it, and runs the property's check on it.
edits: list of (path under src, old, new). Works in /repo and always undoes the change."""
import os, subprocess, json, shutil, time
HERE = os.path.dirname(os.path.abspath(__file__)); S = '/verif/seeded'
def sh(cmd, **kw): return subprocess.run(cmd, shell=isinstance(cmd, str), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', **kw)
def undo(): sh('git -C /repo checkout -- .')
def plant(id, prop, edits, demo, needs, breaks, check=True):
    if isinstance(edits, tuple): edits = [edits]
    assert not sh('git -C /repo status --porcelain').stdout.strip(), 'repo dirty'
    d = os.path.join(S, id); os.makedirs(d, exist_ok=True)
    shutil.copy(HERE + '/demo.sh', d); shutil.copy(HERE + '/demo.h', d); os.chmod(d + '/demo.sh', 0o755)
    open(d + '/demo.cpp', 'w').write('#include "demo.h"\n' + demo.strip() + '\n')
    json.dump({'property': prop, 'needs': needs, 'what_it_breaks': breaks}, open(d + '/meta.json', 'w'), indent=1)
    ok = True
    try:
        sh('bash /opt/vp/build.sh'); r = sh(['bash', d + '/demo.sh'], cwd='/repo')
        if r.returncode: print(id, 'DEMO FAILS ON THE UNCHANGED TREE', r.stdout[-800:]); ok = False; return
        for p, old, new in edits:
            f = '/repo/src/' + p; s = open(f).read(); assert s.count(old) == 1, (id, p, s.count(old), old)
            open(f, 'w').write(s.replace(old, new))
        open(d + '/patch.diff', 'w').write(sh('git -C /repo diff').stdout)
        base = sh('git -C /repo rev-list --max-parents=0 HEAD').stdout.split()[0] if not os.environ.get('BASE') else os.environ['BASE']
        for p, old, new in edits:
            was = sh('git -C /repo show %s:src/%s' % (base, p)).stdout.split('\n')
            for l in sh('git -C /repo diff -U0 -- src/' + p).stdout.split('\n'):
                if l.startswith('-') and not l.startswith('---') and l[1:].strip() and l[1:] not in was: print(id, 'CHANGES A LINE OF A FIX:', l); ok = False; return
        r = sh('/verif/tools/stable.sh')
        if r.returncode: print(id, 'TESTS NOTICE IT', r.stdout[-500:]); ok = False; return
        r = sh(['bash', d + '/demo.sh'], cwd='/repo')
        if not r.returncode: print(id, 'DEMO PASSES WITH THE CHANGE'); ok = False; return
        dm = r.stdout.strip().split('\n')[-1][:90]
        t = time.time()
        r = sh(['python3', '/verif/check.py', prop, 'quick'], env=dict(os.environ, VERIF_SEED='1'), cwd='/verif') if check else None
        if check:
            v = [l for l in r.stdout.split('\n') if 'VIOLATION' in l or 'violat' in l.lower()]
            print('%-7s %s %s rc=%d %.0fs  [%s] %s' % ('CAUGHT' if r.returncode == 1 and 'VIOLATION property=' + prop in r.stdout else 'MISSED', id, prop, r.returncode, time.time() - t, dm, r.stdout.strip()[-160:].replace('\n', ' | ')))
    finally:
        undo()
        if not ok: shutil.rmtree(d)
        sh('bash /opt/vp/build.sh')
