#!/usr/bin/env python3
"""seedtool.py SPEC.py [--nocheck] [--only ID]: turn planted-bug specifications into /verif/seeded/<id>/ and try them.

SPEC.py defines BUGS = [dict(id, property, edits=[(file, old, new)...], needs, breaks, demo, checks=[...])].
Works in a scratch clone of /repo under /tmp; /repo itself is never touched."""
import importlib.util
import io
import json
import os
import shutil
import subprocess
import sys
import tarfile

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
SR = '/tmp/sr'
T = 'interfaces/acados_template/acados_template/'
RUN = '''"""unpacks the helper kit in a scratch directory, builds the library of the tree in the
working directory there and runs demo.py with it"""
import os, subprocess, sys, tarfile, tempfile
D = os.path.dirname(os.path.abspath(__file__))
with tempfile.TemporaryDirectory(prefix='demo_') as W:
    with tarfile.open(os.path.join(D, 'kit.tgz')) as t:
        t.extractall(W)
    os.environ['VP_REPO'] = os.environ.get('VP_REPO', os.getcwd())
    os.environ['VP_BUILD'] = W + '/build'
    sys.path.insert(0, W + '/lib')
    import acbuild
    env = acbuild.env_for(acbuild.build('plain'))
    env['PYTHONWARNINGS'] = 'ignore'
    os.mkdir(W + '/w')
    r = subprocess.run([acbuild.PY, os.path.join(D, 'demo.py')], cwd=W + '/w', env=env, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=280)
    print(r.stdout[-1500:])
    sys.exit(1 if r.returncode else 0)
'''
HEAD = 'import vpfast; vpfast.install()\nimport sys\nimport numpy as np\nimport casadi as ca\n'


def sh(cmd, **kw):
    return subprocess.run(cmd, shell=True, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **kw)


def fresh():
    if not os.path.isdir(SR + '/.git'):
        r = sh('git clone -q /repo %s' % SR)
        assert r.returncode == 0, r.stdout
    r = sh('git -C %s fetch -q origin && git -C %s checkout -q -f --detach origin/HEAD && git -C %s clean -qfd' % (SR, SR, SR))
    if r.returncode:
        r = sh('cd %s && git fetch -q /repo HEAD && git checkout -q -f --detach FETCH_HEAD && git clean -qfd' % SR)
    assert r.returncode == 0, r.stdout
    assert sh('git -C %s rev-parse HEAD' % SR).stdout == sh('git -C /repo rev-parse HEAD').stdout


def kit(path):
    with tarfile.open(path, 'w:gz') as t:
        for d, fs in (('lib', ['acbuild.py', 'minitera.py', 'vpfast.py', 'prob.py', 'simref.py']), ('compat', None)):
            for f in fs or sorted(os.listdir(os.path.join(VERIF, d))):
                p = os.path.join(VERIF, d, f)
                if f == '__pycache__':
                    continue
                t.add(p, d + '/' + f)


def main():
    spec = importlib.util.spec_from_file_location('spec', sys.argv[1])
    m = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(m)
    for b in m.BUGS:
        if '--only' in sys.argv and b['id'] != sys.argv[sys.argv.index('--only') + 1]:
            continue
        fresh()
        for f, old, new, *occ in b['edits']:   # occ: which occurrence (0-based) when there are several
            p = os.path.join(SR, f.replace('T:', T))
            s = open(p).read()
            if s.count(old) != 1 and not occ:
                print(b['id'], 'EDIT does not match once (%d)' % s.count(old), f)
                break
            q = s.split(old)
            i = occ[0] + 1 if occ else 1
            open(p, 'w').write(old.join(q[:i]) + new + old.join(q[i:]))
        else:
            d = os.path.join(VERIF, 'seeded', b['id'])
            os.makedirs(d, exist_ok=True)
            open(d + '/patch.diff', 'w').write(sh('git -C %s diff' % SR).stdout)
            open(d + '/demo.py', 'w').write(HEAD + b['demo'])
            open(d + '/rundemo.py', 'w').write(RUN)
            kit(d + '/kit.tgz')
            open(d + '/demo.sh', 'w').write('#!/bin/sh\nexec python3 -B "$(dirname "$0")/rundemo.py"\n')
            os.chmod(d + '/demo.sh', 0o755)
            json.dump(dict(property=b['property'], needs=b['needs'], what_it_breaks=b['breaks']), open(d + '/meta.json', 'w'), indent=1)
            g = sh('bash %s/demo.sh' % d, cwd='/repo')
            h = sh('bash %s/demo.sh' % d, cwd=SR)
            ok = g.returncode == 0 and h.returncode != 0
            print('%s: demo clean=%d buggy=%d %s' % (b['id'], g.returncode, h.returncode, 'OK' if ok else 'BAD'))
            if not ok:
                print('--- clean\n', g.stdout[-1500:], '--- buggy\n', h.stdout[-1500:])
            else:
                print('   buggy says:', h.stdout.strip()[-300:])
            if '--nocheck' not in sys.argv:
                for c in [b['property']] + b.get('checks', []):
                    e = dict(os.environ, VP_REPO=SR, VP_BUILD='/tmp/srbuild', VERIF_SEED='1')
                    r = sh('python3 run.py %s quick' % c, cwd=VERIF, env=e)
                    v = [l for l in r.stdout.split('\n') if l.startswith('   case')]
                    print('   check %s: exit %d, %d violating cases' % (c, r.returncode, len(v)))
                    for l in v[:3] or r.stdout.strip().split('\n')[-2:]:
                        print('      ', l[:260])
        sys.stdout.flush()


main()
