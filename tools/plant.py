#!/usr/bin/env python3
"""plant.py DEFS.py: make /verif/seeded/<id>/ from definitions, confirming that the demonstration passes on /repo's
tree and fails on the changed one (in a scratch copy /tmp/sr, removed afterwards).  Used while planting bugs only."""
import os, sys, json, subprocess, runpy
SR = '/tmp/sr'
V = '/verif/seeded'
def sh(c, **k):
    return subprocess.run(c, shell=True, text=True, capture_output=True, **k)
bugs = runpy.run_path(sys.argv[1])['BUGS']
only = sys.argv[2:]
sh('rm -rf /tmp/sr; cp -a /repo /tmp/sr')
for b in bugs:
    i = b['id']
    if only and i not in only: continue
    d = '%s/%s' % (V, i)
    os.makedirs(d, exist_ok=True)
    sh('git checkout -- .', cwd=SR)
    ok = True
    for f, old, new in b['edits']:
        p = '%s/%s' % (SR, f)
        t = open(p).read()
        if t.count(old) != 1:
            print(i, 'edit matches', t.count(old), 'times in', f); ok = False; break
        open(p, 'w').write(t.replace(old, new))
    if not ok: continue
    open(d + '/patch.diff', 'w').write(sh('git diff', cwd=SR).stdout)
    open(d + '/demo.py', 'w').write(b['demo'].lstrip())
    np_ = b.get('np', 1)
    run = '"$PY" "$here/demo.py"' if np_ == 1 else 'mpirun -np %d "$PY" "$here/demo.py"' % np_
    open(d + '/demo.sh', 'w').write('#!/bin/bash\n. /opt/vp/env.sh\nhere=$(cd "$(dirname "$0")" && pwd)\nexport PYTHONPATH=$PWD\n%s\n' % run)
    json.dump({'property': b['property'], 'needs': b['needs'], 'what_it_breaks': b['breaks']}, open(d + '/meta.json', 'w'), indent=1)
    built = any(f.endswith(('.in', '.pyx', 'pythran_maths.py')) for f, _, _ in b['edits'])
    build = "sed 's#/repo#/tmp/sr#g' /opt/vp/env.sh > /tmp/sr_env.sh; cd /tmp/sr; . /tmp/sr_env.sh; build_ext"
    if built:
        r = sh("bash -c %r" % build)
        if r.returncode: print(i, 'build failed', r.stdout[-500:], r.stderr[-500:]); continue
    try:
        bad = sh('timeout 300 bash %s/demo.sh' % d, cwd=SR)
    finally:
        sh('git checkout -- .', cwd=SR)
        if built: sh("bash -c %r" % build)
    good = sh('timeout 300 bash %s/demo.sh' % d, cwd='/repo')
    print(i, b['property'], 'OK' if good.returncode == 0 and bad.returncode != 0 else 'NOT', 'unchanged', good.returncode, 'changed', bad.returncode)
    print('   ', (bad.stdout + bad.stderr).strip().splitlines()[-1:])
    if good.returncode: print((good.stdout+good.stderr)[-800:])
sh('rm -rf /tmp/sr')
