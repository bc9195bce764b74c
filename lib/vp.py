"""Check driver.

A check is a module checks/<id>.py with
    PROPERTY   the property id
    VARIANT    library build it runs against ('plain', 'serial', 'asan', ...) or None
    LEVEL, ASSUMPTIONS
    cases(tier, seed) -> list of dicts, each with a unique 'id'
    run(case, ob)     executes the real code for one case; `ob` is an Observer
    (optional) finish(summary, ob) -> cross-case oracle
Every case runs in its own forked process in its own scratch directory, so a
crash, an exit() or an abort of the code under test is an observation, not the end
of the check.  The verdict of a case is held / violated / inconclusive.
"""
import faulthandler
import hashlib
import importlib
import json
import os
import random
import shutil
import signal
import sys
import tempfile
import time
import traceback

LIB = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(LIB)
sys.path.insert(0, LIB)
sys.path.insert(0, os.path.join(VERIF, 'checks'))

import acbuild  # noqa: E402

MAXV = 40


class Inconclusive(Exception):
    """The oracle could not decide this case (an assumption of it failed)."""


class Observer:
    def __init__(self):
        self.counts = {}
        self.violations = []
        self.samples = []
        self.keys = set()
        self.maxima = {}

    def count(self, what, n=1):
        self.counts[what] = self.counts.get(what, 0) + n

    def state(self, *key):
        """a distinct state / behaviour class that was observed"""
        self.keys.add('|'.join(str(k) for k in key))

    def worst(self, what, v):
        v = float(v)
        if v == v and (what not in self.maxima or v > self.maxima[what]):
            self.maxima[what] = v

    def sample(self, **kw):
        if len(self.samples) < 3:
            self.samples.append(kw)

    def violation(self, key, msg):
        if len(self.violations) < 20:
            self.violations.append(dict(key=str(key), msg=str(msg)[:1500]))

    def check(self, cond, key, msg):
        self.count('oracle_evaluations')
        if not cond:
            self.violation(key, msg() if callable(msg) else msg)
        return cond

    def close(self, got, want, tol, key, what='', rel=True):
        """|got - want| <= tol * (1 + |want|); NaN/shape mismatch is a violation"""
        import numpy as np
        self.count('oracle_evaluations')
        g = np.asarray(got, dtype=float)
        w = np.asarray(want, dtype=float)
        if g.shape != w.shape:
            if g.size != w.size:
                self.violation(key, '%s: shape %s, expected %s' % (what, g.shape, w.shape))
                return False
            g = g.reshape(w.shape)
        if g.size == 0:
            return True
        scale = 1.0 + (np.max(np.abs(w[np.isfinite(w)])) if rel and np.isfinite(w).any() else 0.0)
        with np.errstate(invalid='ignore'):
            d = np.where(g == w, 0.0, np.abs(g - w))
        if np.isnan(d).any():
            self.violation(key, '%s: got %s, expected %s' % (what, short(g), short(w)))
            return False
        e = float(np.max(d)) / scale
        self.worst(what.split(':')[0] or key, e)
        if not e <= tol:
            k = np.unravel_index(int(np.argmax(d)), d.shape)
            self.violation(key, '%s: relative deviation %.3e > %.1e at %s (got %.12g, expected %.12g); got %s, expected %s'
                           % (what, e, tol, list(map(int, k)), g[k], w[k], short(g), short(w)))
            return False
        return True

    def dump(self):
        return dict(counts=self.counts, violations=self.violations, samples=self.samples,
                    keys=sorted(self.keys), maxima=self.maxima)


def short(a):
    import numpy as np
    s = np.array2string(np.asarray(a), precision=8, threshold=12, max_line_width=200)
    return s.replace('\n', ' ')[:300]


def _tail(path, n=1500):
    try:
        with open(path, 'rb') as f:
            f.seek(0, 2)
            k = f.tell()
            f.seek(max(0, k - n))
            return f.read().decode('utf-8', 'replace')
    except OSError:
        return ''


def _sanitizer_report(log):
    try:
        with open(log, 'rb') as f:
            t = f.read().decode('utf-8', 'replace')
    except OSError:
        return None
    for mark in ('ERROR: AddressSanitizer', 'runtime error:', 'WARNING: ThreadSanitizer', 'ERROR: LeakSanitizer'):
        i = t.find(mark)
        if i >= 0:
            return t[max(0, i - 100):i + 2500]
    return None


def _child(mod, case, rd, wd):
    ob = Observer()
    out = dict(status='ok')
    try:
        fd = os.open(os.path.join(wd, 'log'), os.O_WRONLY | os.O_CREAT | os.O_TRUNC)
        os.dup2(fd, 1)
        os.dup2(fd, 2)
        os.close(fd)
        faulthandler.enable()
        cwd = os.path.join(wd, 'w')
        os.makedirs(cwd)
        os.chdir(cwd)
        try:
            import numpy as np
            np.random.seed(12345)
        except ImportError:
            pass
        random.seed(case.get('seed', 0))
        mod.run(case, ob)
    except Inconclusive as e:
        out = dict(status='inconclusive', why=str(e)[:400])
    except BaseException as e:
        if isinstance(e, (KeyboardInterrupt, MemoryError)):
            out = dict(status='harness', why=repr(e))
        else:
            out = dict(status='exception', why='%s: %s' % (type(e).__name__, str(e)[:600]), tb=traceback.format_exc()[-2500:])
    out.update(ob.dump())
    sys.stdout.flush()
    data = json.dumps(out).encode()
    with open(rd, 'wb') as f:
        f.write(data)
    # skip interpreter teardown: it belongs to the harness; solver objects that have
    # to be destroyed are destroyed inside the case
    os._exit(0)


class Runner:
    def __init__(self, mod, jobs, case_timeout, deadline):
        self.mod, self.jobs, self.timeout, self.deadline = mod, jobs, case_timeout, deadline
        self.root = tempfile.mkdtemp(prefix='vp_%s_' % mod.PROPERTY, dir=os.environ.get('VP_TMP', '/tmp'))
        os.makedirs(os.path.join(self.root, 'objcache'))
        os.environ['VP_OBJCACHE'] = os.path.join(self.root, 'objcache')

    def close(self):
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(self.root, ignore_errors=True)

    def start(self, case, attempt):
        tag = hashlib.sha1(('%s#%d' % (case['id'], attempt)).encode()).hexdigest()[:12]
        wd = os.path.join(self.root, tag)
        os.makedirs(wd)
        rd = os.path.join(wd, 'result.json')
        pid = os.fork()
        if pid == 0:
            try:
                os.setpgid(0, 0)
                _child(self.mod, case, rd, wd)
            finally:
                os._exit(99)
        return dict(pid=pid, case=case, attempt=attempt, wd=wd, rd=rd, t0=time.time())

    def run(self, cases):
        todo = [(c, 0) for c in cases]
        todo.reverse()
        live, results, skipped = [], [], 0
        while todo or live:
            while todo and len(live) < self.jobs:
                c, a = todo.pop()
                if self.deadline and time.time() > self.deadline:
                    skipped += 1
                    continue
                live.append(self.start(c, a))
            time.sleep(0.002)
            for j in list(live):
                pid, st = os.waitpid(j['pid'], os.WNOHANG)
                dt = time.time() - j['t0']
                if pid == 0:
                    if dt > self.timeout:
                        try:
                            os.killpg(j['pid'], signal.SIGKILL)
                        except OSError:
                            pass
                        os.waitpid(j['pid'], 0)
                        live.remove(j)
                        if j['attempt'] == 0:
                            todo.append((j['case'], 1))
                        else:
                            results.append(self.result(j, dict(status='timeout', why='no answer after %.0f s, twice' % self.timeout), dt))
                        self.clean(j)
                    continue
                live.remove(j)
                try:
                    os.killpg(j['pid'], signal.SIGKILL)
                except OSError:
                    pass
                res = None
                if os.path.exists(j['rd']):
                    try:
                        with open(j['rd']) as f:
                            res = json.load(f)
                    except ValueError:
                        res = None
                rep = _sanitizer_report(os.path.join(j['wd'], 'log'))
                if res is None:
                    sig = os.WTERMSIG(st) if os.WIFSIGNALED(st) else 0
                    if sig == signal.SIGKILL and j['attempt'] == 0:
                        todo.append((j['case'], 1))
                        self.clean(j)
                        continue
                    code = os.WEXITSTATUS(st) if os.WIFEXITED(st) else None
                    res = dict(status='harness' if sig == signal.SIGKILL else 'died',
                               why='process ended by signal %d' % sig if sig else 'process called exit(%s)' % code,
                               tail=_tail(os.path.join(j['wd'], 'log')))
                if rep:
                    res['sanitizer'] = rep
                results.append(self.result(j, res, dt))
                self.clean(j)
        return results, skipped

    def clean(self, j):
        if not os.environ.get('VP_KEEP'):
            shutil.rmtree(j['wd'], ignore_errors=True)

    @staticmethod
    def result(j, res, dt):
        res = dict(res)
        res['case'] = j['case']
        res['secs'] = dt
        return res


def known_findings():
    out = []
    p = os.path.join(VERIF, 'known_findings.jsonl')
    if os.path.exists(p):
        with open(p) as f:
            for line in f:
                line = line.strip()
                if line and line.startswith('{'):
                    d = json.loads(line)
                    if d.get('kind') == 'finding':
                        out.append(d)
    return out


def main(argv=None):
    argv = list(sys.argv[1:] if argv is None else argv)
    pid, tier = argv[0], argv[1]
    only = None
    if '--case' in argv:
        only = argv[argv.index('--case') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1'))
    if '--seed' in argv:
        seed = int(argv[argv.index('--seed') + 1])
    mod = importlib.import_module(pid.lower())
    assert mod.PROPERTY == pid
    t0 = time.time()
    if hasattr(mod, 'prepare'):
        mod.prepare(tier)
    if getattr(mod, 'IMPORT', True):
        import warnings
        warnings.simplefilter('ignore')
        import vpfast
        vpfast.install()
        import numpy  # noqa
        import casadi  # noqa
        import acados_template  # noqa
        import minitera
        minitera.precompile(os.path.join(os.path.dirname(acados_template.__file__), 'c_templates_tera'))
    cases = mod.cases(tier, seed)
    ids = [c['id'] for c in cases]
    assert len(set(ids)) == len(ids), 'duplicate case ids'
    if only:
        cases = [c for c in cases if c['id'] == only or only.endswith('*') and c['id'].startswith(only[:-1])]
    jobs = int(os.environ.get('VP_JOBS', getattr(mod, 'JOBS', os.cpu_count() or 4)))
    soft = getattr(mod, 'SOFT_S', {'quick': 420, 'thorough': 3000})[tier]
    runner = Runner(mod, jobs, getattr(mod, 'CASE_TIMEOUT', 150), t0 + soft)
    try:
        results, skipped = runner.run(cases)
        if os.environ.get('VP_VERBOSE'):
            for r in sorted(results, key=lambda r: -r['secs'])[:8]:
                print('  %.2fs %s' % (r['secs'], r['case']['id']))
    finally:
        runner.close()
    total = Observer()
    viol, incon, harness, states = [], [], [], set()
    for r in results:
        cid = r['case']['id']
        for k, v in r.get('counts', {}).items():
            total.count(k, v)
        for k, v in r.get('maxima', {}).items():
            total.worst(k, v)
        states.update(r.get('keys', []))
        for v in r.get('violations', []):
            viol.append(dict(case=r['case'], key=v['key'], msg=v['msg']))
        if r.get('sanitizer'):
            viol.append(dict(case=r['case'], key='sanitizer', msg=r['sanitizer']))
        elif r['status'] == 'died':
            viol.append(dict(case=r['case'], key='died', msg=r['why'] + '\n' + r.get('tail', '')))
        if r['status'] == 'exception':
            viol.append(dict(case=r['case'], key='exception', msg=r['why'] + '\n' + r.get('tb', '')))
        elif r['status'] == 'timeout':
            viol.append(dict(case=r['case'], key='timeout', msg=r['why']))
        elif r['status'] == 'inconclusive':
            incon.append('%s: %s' % (cid, r['why']))
        elif r['status'] == 'harness':
            harness.append('%s: %s' % (cid, r['why']))
    if hasattr(mod, 'finish'):
        fo = Observer()
        mod.finish(results, fo)
        for v in fo.violations:
            viol.append(dict(case=dict(id='finish'), key=v['key'], msg=v['msg']))
        for k, v in fo.counts.items():
            total.count(k, v)
        states |= fo.keys
    known = known_findings()
    real, hits = [], {}
    for v in viol:
        for k in known:
            cid = v['case'].get('id', '')
            if k['property'] == pid and k['key'] == v['key'] and (k.get('case') == cid or ('case_prefix' in k and cid.startswith(k['case_prefix']))):
                hits[k['what']] = k
                break
        else:
            real.append(v)
    for k in hits.values():
        print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
    rdir = os.path.join(acbuild.BUILD, 'replay')
    os.makedirs(rdir, exist_ok=True)
    nviol = 0
    seen = set()
    for v in real:
        h = (v['case'].get('id'), v['key'])
        if h in seen:
            continue
        seen.add(h)
        nviol += 1
        if nviol > MAXV:
            continue
        p = os.path.join(rdir, '%s_%s.json' % (pid, hashlib.sha1(repr(h).encode()).hexdigest()[:10]))
        with open(p, 'w') as f:
            json.dump(dict(property=pid, tier=tier, seed=seed, case=v['case'], key=v['key'], message=v['msg'],
                           replay='python3 %s/run.py %s %s --seed %d --case %s' % (VERIF, pid, tier, seed, v['case'].get('id'))), f, indent=1)
        print('VIOLATION property=%s replay=%s' % (pid, p))
        print('   case %s [%s] %s' % (v['case'].get('id'), v['key'], v['msg'][:1000].replace('\n', '\n      ')))
    samples = []
    for r in results:
        for s in r.get('samples', []):
            if len(samples) < 6:
                samples.append(dict(case=r['case']['id'], **s))
    if not samples:
        samples = [dict(case=r['case']['id'], counts=r.get('counts', {})) for r in results[:4]]
    held = sum(1 for r in results if r['status'] == 'ok' and not r.get('violations'))
    ev = dict(property=pid, tier=tier, seed=seed, level=getattr(mod, 'LEVEL', 'exploration'),
              coverage=dict(evaluations=total.counts.get('oracle_evaluations', 0),
                            distinct_nontrivial=len(states),
                            rule=getattr(mod, 'RULE', 'distinct configuration/behaviour classes in which the oracle decided'),
                            samples=samples, cases=len(results), held=held, inconclusive=len(incon), inconclusive_detail=incon[:10],
                            skipped_for_time=skipped, observed=total.counts, worst_deviation=total.maxima,
                            states=sorted(states)[:60]),
              wall_s=round(time.time() - t0, 2), assumptions=getattr(mod, 'ASSUMPTIONS', []), violations=nviol)
    if not only:
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        p = os.path.join(VERIF, 'evidence', pid + '.json')
        with open(p + '.%d.tmp' % os.getpid(), 'w') as f:
            json.dump(ev, f, indent=1, default=str)
        os.replace(p + '.%d.tmp' % os.getpid(), p)
    print('%s %s: %d cases, %d held, %d inconclusive, %d skipped, %d oracle evaluations, %d distinct states, %d violations, %.1f s'
          % (pid, tier, len(results), held, len(incon), skipped, ev['coverage']['evaluations'], len(states), nviol, ev['wall_s']))
    if incon and (only or os.environ.get('VP_VERBOSE')):
        print('\n'.join('  inconclusive ' + x for x in incon[:20]))
    if nviol:
        return 1
    if harness:
        print('HARNESS ERROR:\n' + '\n'.join(harness[:5]))
        return 2
    need = getattr(mod, 'MIN_HELD', 0.5)
    if only is None and (not results or held < need * len(cases) or not ev['coverage']['evaluations']):
        print('HARNESS ERROR: only %d of %d cases decided' % (held, len(cases)))
        return 2
    return 0


if __name__ == '__main__':
    import vp   # checks import 'vp': use one instance of this module
    sys.exit(vp.main())
