#!/usr/bin/env python3
"""usage: plant.py SPEC.py ...   make and validate planted bugs
a spec defines ID, PROP, NEEDS, BREAKS, EDITS=[(file, old, new)], DEMO (python source; assert-style)
"""
import json
import os
import re
import shutil
import subprocess
import sys
import tempfile
V = '/verif/seeded'


def sh(cmd, cwd, env=None, timeout=600):
    e = dict(os.environ, LC_ALL='C.UTF-8', PYTHONHASHSEED='0', PYTHONDONTWRITEBYTECODE='1', OPENBLAS_NUM_THREADS='1')
    e.update(env or {})
    r = subprocess.run(cmd, shell=True, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout,
                       universal_newlines=True)
    return r.returncode, r.stdout


def one(path, tests=True):
    g = {}
    exec(compile(open(path).read(), path, 'exec'), g)
    d = os.path.join(V, g['ID'])
    tmp = tempfile.mkdtemp(prefix='plant_')
    wt = os.path.join(tmp, 'repo')
    try:
        subprocess.check_call(['git', 'clone', '-q', '/repo', wt])
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'demo.py'), 'w') as f:
            f.write(g['DEMO'].lstrip('\n'))
        with open(os.path.join(d, 'demo.sh'), 'w') as f:
            f.write('#!/bin/bash\nexport PYTHONPATH="$PWD" PYTHONDONTWRITEBYTECODE=1 OPENBLAS_NUM_THREADS=1\n'
                    'exec /opt/venv/bin/python -W ignore "$(dirname "$0")/demo.py"\n')
        os.chmod(os.path.join(d, 'demo.sh'), 0o755)
        rc0, out0 = sh('bash %s/demo.sh' % d, wt)
        for fn, old, new in g['EDITS']:
            p = os.path.join(wt, fn)
            s = open(p).read()
            assert s.count(old) == 1, (fn, old, s.count(old))
            open(p, 'w').write(s.replace(old, new))
        diff = subprocess.check_output(['git', 'diff'], cwd=wt, universal_newlines=True)
        with open(os.path.join(d, 'patch.diff'), 'w') as f:
            f.write(diff)
        # lines changed must be lines of the original repository
        base = subprocess.check_output('git rev-list --max-parents=0 HEAD', shell=True, cwd=wt, universal_newlines=True).strip()
        for fn, old, new in g['EDITS']:
            b = subprocess.check_output(['git', 'show', base + ':' + fn], cwd=wt, universal_newlines=True)
            bl = set(x.strip() for x in b.split('\n'))
            for l in diff.split('\n'):
                if l.startswith('-') and not l.startswith('---') and l[1:].strip() not in bl and l[1:].strip():
                    if all(l[1:].strip() not in set(x.strip() for x in subprocess.check_output(
                            ['git', 'show', base + ':' + f2], cwd=wt, universal_newlines=True).split('\n')) for f2, _, _ in g['EDITS']):
                        print('  NOT AN ORIGINAL LINE', l)
        json.dump({'property': g['PROP'], 'needs': g['NEEDS'], 'what_it_breaks': g['BREAKS']},
                  open(os.path.join(d, 'meta.json'), 'w'), indent=1)
        rc1, out1 = sh('bash %s/demo.sh' % d, wt)
        trc = 'skipped'
        if tests:
            trc, tout = sh('/opt/venv/bin/python -W ignore -m compileall -q pytracer && /opt/venv/bin/python -m pytest -q -x -p no:cacheprovider '
                           '--ignore=tests/pytracer/test_render.py 2>&1 | tail -1', wt, {'PYTHONPATH': wt})
            m = re.search(r'(\d+) passed', tout)
            trc = tout.strip()[-80:] if not m or 'failed' in tout or 'error' in tout else m.group(1)
        crc, cout = sh('python3 -W ignore -m sa ' + g['PROP'], '/verif', {'SA_REPO': wt})
        v = [l for l in cout.split('\n') if l.startswith('  violated') or l.startswith('VIOLATION') or 'BROKEN' in l]
        print('%s [%s] demo %s->%s tests %s check rc=%d' % (g['ID'], g['PROP'], rc0, rc1, trc, crc))
        if rc0 != 0:
            print(out0[-600:])
        if rc1 == 0:
            print('  DEMO DOES NOT FAIL')
        else:
            print('   demo: ' + out1.strip().split('\n')[-1][:160])
        for l in v[:3]:
            print('   ' + l[:300])
        if crc == 0:
            print('   MISSED', [l for l in cout.split('\n') if 'undecided' in l][:4])
    finally:
        shutil.rmtree(tmp)


if __name__ == '__main__':
    a = [x for x in sys.argv[1:] if not x.startswith('-')]
    for p in a:
        one(p, '--fast' not in sys.argv)
