"""Builds the acados C library of /repo in a scratch prefix.

BLASFEO, HPIPM, DAQP and OSQP come from the CasADi wheel of the environment
(the submodules of /repo are empty here); /verif/compat bridges the HPIPM API
differences.  The prefix has the layout of an acados installation (include/,
lib/, bin/, interfaces/), so the unmodified Python interface can generate, compile
and load solvers with ACADOS_SOURCE_DIR pointing at it.

Objects are cached under /verif/build by the hash of what goes into them, so a
changed source is always recompiled.
"""
import glob
import hashlib
import json
import os
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VP_REPO', '/repo')
VENV = '/opt/acados-env/venv'
PY = VENV + '/bin/python'
CASADI = VENV + '/lib/python3.12/site-packages/casadi'
BUILD = os.environ.get('VP_BUILD', os.path.join(VERIF, 'build'))

EXCLUDE = ('ooqp', 'qore', 'qpoases', 'qpdunes', 'hpmpc', 'clarabel')

WARN = ['-w', '-Werror=implicit-function-declaration', '-Werror=int-conversion',
        '-Werror=incompatible-pointer-types']

VARIANTS = {
    'plain': dict(cflags=['-O1', '-g', '-DACADOS_WITH_OPENMP', '-fopenmp'], ldflags=['-fopenmp'], gen=['-O0'], genld=[]),
    'serial': dict(cflags=['-O1', '-g'], ldflags=[], gen=['-O0'], genld=[]),
    'asan': dict(cflags=['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                         '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment', '-DACADOS_WITH_OPENMP', '-fopenmp'],
                 ldflags=['-fsanitize=address,undefined', '-fopenmp'],
                 gen=['-O1', '-g', '-fno-omit-frame-pointer', '-fsanitize=address,undefined',
                      '-fno-sanitize-recover=undefined', '-fno-sanitize=alignment'],
                 genld=['-fsanitize=address,undefined']),
    'tsan': dict(cflags=['-O1', '-g', '-fsanitize=thread', '-DACADOS_WITH_OPENMP', '-fopenmp'],
                 ldflags=['-fsanitize=thread', '-Wl,--allow-shlib-undefined'], gen=['-O1', '-g', '-fsanitize=thread'],
                 genld=['-fsanitize=thread'], shim_gomp=True),
    'valgrind': dict(cflags=['-O0', '-g', '-DACADOS_WITH_OPENMP', '-fopenmp'], ldflags=['-fopenmp'], gen=['-O0', '-g'], genld=[]),
}


class BuildError(Exception):
    pass


def _read(p):
    with open(p, 'rb') as f:
        return f.read()


def sources(repo):
    out = []
    for pat in ('acados/*/*.c', 'interfaces/acados_c/*.c'):
        for f in sorted(glob.glob(os.path.join(repo, pat))):
            b = os.path.basename(f)
            if any(x in b for x in EXCLUDE):
                continue
            out.append(f)
    return out


def _headers_hash(repo):
    h = hashlib.sha256()
    for pat in ('acados/*/*.h', 'interfaces/acados_c/*.h'):
        for f in sorted(glob.glob(os.path.join(repo, pat))):
            h.update(f[len(repo):].encode())
            h.update(_read(f))
    for f in sorted(glob.glob(os.path.join(VERIF, 'compat', '*'))):
        if os.path.isfile(f):
            h.update(_read(f))
    return h.hexdigest()


SHADOW = ['hpipm_common', 'hpipm_d_cond', 'hpipm_d_dense_qp', 'hpipm_d_dense_qp_dim', 'hpipm_d_dense_qp_ipm',
          'hpipm_d_dense_qp_res', 'hpipm_d_dense_qp_seed', 'hpipm_d_dense_qp_sol', 'hpipm_d_dense_qp_kkt',
          'hpipm_d_ocp_qp', 'hpipm_d_ocp_qp_dim', 'hpipm_d_ocp_qp_ipm', 'hpipm_d_ocp_qp_kkt', 'hpipm_d_ocp_qp_red',
          'hpipm_d_ocp_qp_res', 'hpipm_d_ocp_qp_seed', 'hpipm_d_ocp_qp_sol', 'hpipm_d_ocp_qp_utils',
          'hpipm_d_dense_qp_utils', 'hpipm_d_part_cond']


def _link(src, dst):
    if os.path.islink(dst):
        if os.readlink(dst) == src:
            return
        os.unlink(dst)
    os.symlink(src, dst)


def make_prefix(prefix, repo):
    os.makedirs(prefix + '/lib', exist_ok=True)
    os.makedirs(prefix + '/bin', exist_ok=True)
    inc = prefix + '/include'
    os.makedirs(inc, exist_ok=True)
    for d in ('blasfeo', 'hpipm', 'daqp', 'osqp'):
        os.makedirs(os.path.join(inc, d), exist_ok=True)
    _link(os.path.join(repo, 'acados'), inc + '/acados')
    _link(os.path.join(repo, 'interfaces/acados_c'), inc + '/acados_c')
    _link(CASADI + '/include', inc + '/blasfeo/include')
    di = inc + '/daqp/include'
    os.makedirs(di, exist_ok=True)
    for h in ('types', 'api', 'daqp', 'utils'):
        p = os.path.join(di, h + '.h')
        body = '#include "%s/compat/daqp_compat.h"\n' % VERIF
        if not os.path.exists(p) or _read(p).decode() != body:
            with open(p, 'w') as f:
                f.write(body)
    _link(CASADI + '/include/osqp', inc + '/osqp/include')
    _link(os.path.join(repo, 'interfaces'), prefix + '/interfaces')
    hi = inc + '/hpipm/include'
    os.makedirs(hi, exist_ok=True)
    for s in SHADOW:
        p = os.path.join(hi, s + '.h')
        body = '#include "%s/compat/hpipm_compat.h"\n' % VERIF
        extra = os.path.join(CASADI, 'include', s + '.h')
        if os.path.exists(extra):
            body = '#include "%s"\n' % extra + body
        if not os.path.exists(p) or _read(p).decode() != body:
            with open(p, 'w') as f:
                f.write(body)
    for l in ('libblasfeo.so', 'libhpipm.so', 'libosqp.so', 'libqdldl.so'):
        if os.path.exists(os.path.join(CASADI, l)):
            _link(os.path.join(CASADI, l), os.path.join(prefix, 'lib', l))
    tera = prefix + '/bin/t_renderer'
    body = '#!/bin/sh\nexec %s -S %s/lib/minitera.py "$@"\n' % (PY, VERIF)
    if not os.path.exists(tera) or _read(tera).decode() != body:
        with open(tera + '.%d.tmp' % os.getpid(), 'w') as f:
            f.write(body)
        os.chmod(tera + '.%d.tmp' % os.getpid(), 0o755)
        os.rename(tera + '.%d.tmp' % os.getpid(), tera)
    with open(prefix + '/lib/link_libs.json', 'w') as f:
        json.dump(dict(openmp='', qpoases='', daqp='', qpdunes='', osqp='-losqp', hpmpc='', clarabel='', ooqp=''), f)


def inc_flags(prefix):
    return ['-I' + prefix + '/include', '-I' + prefix + '/include/acados', '-I' + prefix + '/include/blasfeo/include',
            '-I' + prefix + '/include/daqp/include', '-I' + VERIF + '/compat', '-I' + prefix + '/include/osqp/include',
            '-I' + REPO, '-I' + REPO + '/interfaces']


def _cc(args, what):
    r = subprocess.run(args, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if r.returncode != 0:
        raise BuildError('%s failed:\n%s\n%s' % (what, ' '.join(args), r.stdout[-4000:]))


def build(variant='plain', repo=None, jobs=None, extra_cflags=()):
    """Build (or reuse) the library; returns the prefix directory."""
    repo = repo or REPO
    jobs = jobs or os.cpu_count() or 4
    v = VARIANTS[variant]
    prefix = os.path.join(BUILD, 'prefix-' + variant)
    objdir = os.path.join(BUILD, 'obj')
    os.makedirs(objdir, exist_ok=True)
    make_prefix(prefix, repo)
    hh = _headers_hash(repo)
    flags = ['-fPIC', '-std=gnu99', '-DACADOS_WITH_DAQP', '-DACADOS_WITH_OSQP'] + WARN + v['cflags'] + list(extra_cflags) + inc_flags(prefix)
    fl = ' '.join(flags)

    def key(f):
        return hashlib.sha256((fl + '\0' + hh + '\0' + os.path.basename(f) + '\0').encode() + _read(f)).hexdigest()[:24]

    def comp(f):
        o = os.path.join(objdir, key(f) + '.o')
        if not os.path.exists(o):
            tmp = o + '.%d.tmp' % os.getpid()
            _cc(['gcc'] + flags + ['-c', f, '-o', tmp], f)
            os.rename(tmp, o)
        return o

    srcs = sources(repo) + [os.path.join(VERIF, 'compat', f) for f in ('hpipm_compat.c', 'daqp_compat.c')]
    if v.get('shim_gomp'):
        srcs.append(os.path.join(VERIF, 'compat', 'gomp_shim.c'))
    with ThreadPoolExecutor(jobs) as ex:
        objs = list(ex.map(comp, srcs))
    lib = prefix + '/lib/libacados.so'
    stamp = hashlib.sha256(' '.join(objs).encode()).hexdigest()
    sp = prefix + '/lib/.stamp'
    if not os.path.exists(lib) or not os.path.exists(sp) or _read(sp).decode() != stamp:
        tmp = lib + '.%d.tmp' % os.getpid()
        _cc(['gcc', '-shared', '-o', tmp] + objs + v['ldflags'] +
            ['-L' + CASADI, '-Wl,-rpath,' + CASADI, '-lhpipm', '-lblasfeo', '-losqp', '-lm', '-lpthread'], 'link libacados')
        os.rename(tmp, lib)
        with open(sp, 'w') as f:
            f.write(stamp)
    # compiler wrapper used for generated solvers (make's $(CC))
    src = os.path.join(VERIF, 'compat', 'vcc.c')
    cc = prefix + '/bin/vcc'
    st = hashlib.sha256(_read(src)).hexdigest()
    if not os.path.exists(cc) or not os.path.exists(cc + '.stamp') or _read(cc + '.stamp').decode() != st:
        _cc(['gcc', '-O1', '-DVARIANT="%s"' % variant, '-DCASADI="%s"' % CASADI, src, '-o', cc + '.%d.tmp' % os.getpid()], 'vcc')
        os.rename(cc + '.%d.tmp' % os.getpid(), cc)
        with open(cc + '.stamp', 'w') as f:
            f.write(st)
    return prefix


def env_for(prefix, base=None):
    e = dict(base if base is not None else os.environ)
    e.update(ACADOS_SOURCE_DIR=prefix, ACADOS_INSTALL_DIR=prefix, CC=prefix + '/bin/vcc',
             PYTHONPATH=REPO + '/interfaces/acados_template:' + VERIF + '/lib',
             PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', OMP_NUM_THREADS='1', OPENBLAS_NUM_THREADS='1',
             LD_LIBRARY_PATH=prefix + '/lib', MPLBACKEND='Agg', ACADOS_ON_CI='ON', HOME='/root', LANG='C.UTF-8')
    e['PATH'] = VENV + '/bin:/usr/local/bin:/usr/bin:/bin'
    return e


def deepbind_shim():
    so = os.path.join(BUILD, 'nodeepbind.so')
    src = os.path.join(VERIF, 'compat', 'nodeepbind.c')
    if not os.path.exists(so) or os.path.getmtime(so) < os.path.getmtime(src):
        _cc(['gcc', '-shared', '-fPIC', '-O1', src, '-o', so + '.%d.tmp' % os.getpid(), '-ldl'], 'nodeepbind')
        os.rename(so + '.%d.tmp' % os.getpid(), so)
    return so


def make_prefix_only(repo=None):
    prefix = os.path.join(BUILD, 'prefix-nolib')
    make_prefix(prefix, repo or REPO)
    return prefix


if __name__ == '__main__':
    print(build(sys.argv[1] if len(sys.argv) > 1 else 'plain'))
