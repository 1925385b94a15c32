"""Concrete points: turns a symbolic path and a failed obligation into numbers,
and replays them on the native build."""
import os
import shutil
import subprocess
import tempfile
import numpy as np
import z3
from terms import Term, TooBig

PROBES = [0.0, 1.0, -1.0, 2.0, 0.5, -2.0, 3.0]


def symbols_of(M):
    return list(M.ctx.syms.values())


class Sampler:
    def __init__(self, M, seed):
        self.M, self.rng = M, np.random.default_rng(seed)

    def env(self, n, mode):
        """symbol name -> vector of n values"""
        g, c = self.rng, self.M.ctx
        env = {}
        scale = (1.0, 1.0, 3.0, 0.3, 10.0, 0.05)[mode % 6]
        special = mode % 3 == 2          # replace some values by 0, 1, ...
        for name, t in c.syms.items():
            kind, lo, hi = c.kinds[name]
            if kind in ('real', 'normal'):
                v = g.normal(0, scale, n)
                if special:
                    k = g.random(n) < 0.4
                    v = np.where(k, g.choice(PROBES, n), v)
            elif kind == 'unit':
                v = g.uniform(0, 1, n)
                if special:
                    k = g.random(n) < 0.3
                    v = np.where(k, g.choice([0.02, 0.25, 0.5, 0.75, 0.999, 1e-3], n), v)
            elif kind == 'range':
                v = g.uniform(lo, hi, n)
                if mode % 6 == 4 and lo == 0:
                    v = v * 10
            else:
                continue
            env[name] = v
        if special:
            names = [x for x in env if c.kinds[x][0] == 'real']
            if len(names) > 1:
                for i in range(n):
                    if g.random() < 0.5:
                        a, b = g.choice(len(names), 2)
                        env[names[a]][i] = env[names[b]][i]
            if g.random() < 0.5:
                # a whole family to zero
                fam = sorted({x.rstrip('0123456789') for x in names})
                if fam:
                    for f in fam:
                        if g.random() < 0.4:
                            for x in names:
                                if x.rstrip('0123456789') == f:
                                    env[x] = np.where(g.random(n) < 0.6, 0.0, env[x])
        for u in c.unit3s:
            v = g.normal(0, 1, (3, n))
            if special:
                k = g.integers(0, 6, n)
                for i in range(n):
                    if k[i] < 3 and g.random() < 0.6:
                        v[:, i] = 0
                        v[k[i], i] = g.choice([-1.0, 1.0])
                    elif k[i] == 3:
                        v[g.integers(0, 3), i] = 0
            v = v / np.sqrt((v * v).sum(0))
            for i, x in enumerate('xyz'):
                env[u + x] = v[i]
        return env


def z3_env(M, extra, n):
    """values of the symbols in a model of the path condition and `extra`"""
    try:
        r, sol = M.smt_path(extra=extra, timeout=8000, want_model=True)
    except Exception:
        return None
    if r != z3.sat:
        return None
    m = sol.model()
    env = {}
    for name, t in M.ctx.syms.items():
        try:
            a = M.ctx.atom_of(t)
        except Exception:
            continue
        z = M.ctx.prover.zvars.get(a.idx)
        if z is None:
            continue
        v = m.eval(z)
        try:
            if z3.is_algebraic_value(v):
                v = v.approx(20)
            env[name] = float(v.as_fraction())
        except Exception:
            pass
    return env


def holds(v, s):
    tol = 1e-12
    r = np.zeros(len(v), bool)
    for x in s:
        if x == 0:
            r |= np.abs(v) <= 0.0
        elif x > 0:
            r |= v > tol
        else:
            r |= v < -tol
    return r


def points(M, fail, seed, rounds=18, n=600, near_zero=None, solver=True):
    """yield environments (name -> float) which satisfy the path condition and
    break the obligation `fail` = (label, a, b) according to the symbolic values"""
    sm = Sampler(M, seed)
    c = M.ctx
    label, a, b = fail
    cond = [d for d, s in M.pathcond]
    sets = [s for d, s in M.pathcond]
    ts = list(cond)
    if a is not None:
        for x in (a, b):
            ts.append(x if type(x) is Term else c.const(0))
    if near_zero is not None:
        ts.append(near_zero)
    found = 0
    best = None
    for mode in range(rounds):
        env = sm.env(n, mode)
        if solver and mode in (1, 4, 7, 10):
            extra = []
            if type(a) is Term or type(b) is Term:
                try:
                    extra = [(c.sub(a, b), {-1, 1})]
                except Exception:
                    extra = []
            if near_zero is not None:
                extra = [(near_zero, {0})]
            ze = z3_env(M, extra, n)
            if ze:
                # the model's point itself, and mixtures with random values
                for k, v in ze.items():
                    if k in env:
                        keep = sm.rng.random(n) < 0.15
                        keep[0] = False
                        env[k] = np.where(keep, env[k], v)
        if best is not None:
            # perturb the point that violates least
            for k in env:
                keep = sm.rng.random(n) < 0.5
                env[k] = np.where(keep, env[k], best[k])
            renorm(c, env)
        vals = c.eval_many(ts, env, n)
        ok = np.ones(n, bool)
        score = np.zeros(n)
        for v, s in zip(vals, sets):
            h = holds(np.nan_to_num(v, nan=0.0), s) & np.isfinite(v)
            ok &= h
            score += ~h
        if a is not None:
            va = vals[len(cond)] if type(a) is Term else np.full(n, a)
            vb = vals[len(cond) + 1] if type(b) is Term else np.full(n, b)
            d = np.abs(va - vb)
            bad = ~(d <= 1e-5 * (1 + np.maximum(np.abs(va), np.abs(vb))))
        else:
            bad = np.ones(n, bool)
        if near_zero is not None:
            bad = np.abs(vals[-1]) == 0.0
        i = int(score.argmin())
        if score[i] > 0:
            best = {k: env[k][i] for k in env}
        for i in np.nonzero(ok & bad)[0][:3]:
            found += 1
            yield {k: float(v[i]) for k, v in env.items()}
        if found >= 12:
            return


def renorm(c, env):
    for u in c.unit3s:
        v = np.array([env[u + x] for x in 'xyz'])
        v = v / np.sqrt((v * v).sum(0))
        for i, x in enumerate('xyz'):
            env[u + x] = v[i]


def tape(M, env):
    """the text of a tape: inputs of the native replay"""
    out = []
    for k, v in env.items():
        if M.ctx.kinds[k][0] in ('real', 'range', 'unit3'):
            out.append('sym %s %r' % (k, v))
    for k, v in M.ints.items():
        out.append('int %s %d' % (k, v))
    for kind in ('unit', 'normal'):
        d = M.draws[kind]
        m = len(d)
        for k in env:
            if M.ctx.kinds[k][0] == kind:
                m = max(m, int(k[len(kind):]) + 1)
        for i in range(m):
            out.append('%s %r' % (kind, env.get('%s%d' % (kind, i), 0.5)))
    for i in M.draws['index']:
        out.append('index %d' % i)
    for k, n, v in M.choices:
        out.append('choice %d' % v)
    return '\n'.join(out) + '\n'


def replay(native, harness, text, timeout=60, extra_env=None, prog='vreplay'):
    """run the real code on a tape: (exit code, stdout)"""
    d = tempfile.mkdtemp(prefix='vreplay')
    try:
        p = os.path.join(d, 'tape')
        with open(p, 'w') as f:
            f.write(text)
        w = os.path.join(d, 'work')
        os.mkdir(w)
        env = dict(os.environ, VERIF_TAPE=p)
        env.update(extra_env or {})
        try:
            r = subprocess.run([os.path.join(native, prog), harness], cwd=w, env=env, stdout=subprocess.PIPE,
                               stderr=subprocess.PIPE, timeout=timeout)
        except subprocess.TimeoutExpired:
            return 124, 'timeout'
        return r.returncode, (r.stdout + r.stderr).decode('utf-8', 'replace')
    finally:
        shutil.rmtree(d, ignore_errors=True)
