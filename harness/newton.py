"""In-house Newton/BFGS solver and line search with a scripted integer environment.  S01, S02."""
import json
from fractions import Fraction as Fr
from vlib import *
import numpy as np

GRID = 16


def run(rec, tier, rng, extra):
    from tmdsimpy.jax.solvers import NonlinearSolverOMP

    def dyadic(q):
        """A rational whose inverse is a binary fraction as well: no rounding on division."""
        n, d = abs(q.numerator), q.denominator
        return n > 0 and n & (n - 1) == 0 and d & (d - 1) == 0

    def dyadic_lu(M):
        """Gaussian elimination of M has no rounding at all."""
        A = [[Fr(int(v)) for v in row] for row in M]
        N = len(A)
        for k in range(N):
            p = max(range(k, N), key=lambda i: abs(A[i][k]))
            A[k], A[p] = A[p], A[k]
            if not dyadic(A[k][k]):
                return False
            for i in range(k + 1, N):
                m = A[i][k] / A[k][k]
                A[i] = [a - m * b for a, b in zip(A[i], A[k])]
        return True

    def unimodular(N):
        while True:
            M = np.eye(N, dtype=int)
            for _ in range(4):
                i, j = rng.randrange(N), rng.randrange(N)
                if i != j:
                    M[i] += rng.choice([-1, 1, 2]) * M[j]
            if N == 1:
                M = M * rng.choice([1, -1])
            elif rng.random() < 0.5:
                M[rng.randrange(N)] *= -1
            Mi = np.rint(np.linalg.inv(M)).astype(int)
            if np.abs(M).max() < 8 and np.abs(Mi).max() < 8 and dyadic_lu(M):
                return M, Mi

    def dot(a, b):
        return sum((x * y for x, y in zip(a, b)), Fr(0))

    def direction(R, Ji, ss, ys):
        q = [-Fr(x) for x in R]
        al = [None] * len(ss)
        for k in range(len(ss) - 1, -1, -1):
            sy = dot(ss[k], ys[k])
            if sy == 0:
                return None
            al[k] = dot(ss[k], q) / sy
            q = [a - al[k] * b for a, b in zip(q, ys[k])]
        q = [dot([Fr(int(v)) for v in row], q) for row in Ji]
        for k in range(len(ss)):
            be = dot(ys[k], q) / dot(ss[k], ys[k])
            q = [a + (al[k] - be) * b for a, b in zip(q, ss[k])]
        return q

    def ongrid(v, lim):
        return all((x * GRID).denominator == 1 and abs(x) <= lim for x in v)

    class Env:
        """The function being solved.  Simulates the solver only to choose residuals
        that keep the expected iterates on the grid."""

        def __init__(self, c, x0, unit, nan_at, raise_at, zero_at):
            self.c, self.unit = c, unit
            self.N = c['N']
            self.x = [Fr(v, GRID) for v in x0]
            self.k, self.i = 0, 0
            self.ss, self.ys = [], []
            self.mode = 'it'
            self.nan_at, self.raise_at, self.zero_at = nan_at, raise_at, zero_at
            self.calls = 0
            self.sprev, self.rprev = None, None

        def exact(self, ss, ys):
            """No step of the quasi-Newton formula rounds."""
            return all(dyadic(dot(a, b)) for a, b in zip(ss, ys))

        def smallR(self):
            m = rng.choice([1, 3, 6])
            R = [rng.randint(-m, m) for _ in range(self.N)]
            return R

        def advance(self, num, den):
            s = [Fr(num, den) * v for v in self.d]
            self.x = [a + b for a, b in zip(self.x, s)]
            self.sprev, self.rprev = s, [Fr(v) for v in self.R]
            self.k = (self.k + 1) % self.c['freq']
            self.i += 1
            self.mode = 'it'

        def iteration(self, grad):
            Ji = None
            if self.k == 0:
                self.J, self.Ji = unimodular(self.N)
                self.ss, self.ys = [], []
            best = None
            if self.i == self.zero_at:
                R = [0] * self.N
                d = direction(R, self.Ji, self.ss, self.ys) if self.k == 0 else None
                best = (R, [Fr(0)] * self.N, self.ss, self.ys)
                if self.k:
                    y = [Fr(a) - b for a, b in zip(R, self.rprev)]
                    if dot(self.sprev, y) != 0:
                        best = (R, [Fr(0)] * self.N, self.ss + [self.sprev], self.ys + [y])
                    else:
                        best = None
            tries = 0
            while best is None and tries < 400:
                tries += 1
                R = self.smallR()
                if not any(R):
                    continue
                ss, ys = self.ss, self.ys
                if self.k:
                    y = [Fr(a) - b for a, b in zip(R, self.rprev)]
                    if dot(self.sprev, y) == 0:
                        continue
                    ss, ys = ss + [self.sprev], ys + [y]
                d = direction(R, self.Ji, ss, ys)
                if d is None or not ongrid(d, 12):
                    continue
                if self.c['ls'] and not ongrid([v / 2 ** self.c['ls'] for v in d], 12):
                    continue
                if self.c['ls'] and not self.exact(ss, ys) and dot(d, [Fr(v) for v in R]) == 0:
                    continue                # rounding would decide the sign
                best = (R, d, ss, ys)
            if best is None:
                return None
            self.R, self.d, self.ss, self.ys = best
            return self.R

        def __call__(self, X, *args, **kw):
            ask = args[0] if args else kw.get('calc_grad', True)
            X = np.asarray(X, dtype=float)
            c = self.c
            call = self.calls
            self.calls += 1
            if call > 200:
                raise RuntimeError('runaway')
            xq = [Q(v / self.unit, GRID) for v in X]
            ev = dict(op='eval', g=bool(ask), x=xq, nan=False, r=[0] * self.N, ji=[], **{'raise': False})
            if self.mode == 'it':
                R = self.iteration(ask)
                if R is None or call == self.raise_at:      # no exact continuation: end the case
                    ev['raise'] = True
                    rec.emit(**ev)
                    raise ZeroDivisionError('environment')
                ev['r'] = R
                ev['ji'] = self.Ji.tolist()
                J = self.J.astype(float)
                Rf = np.array(R, dtype=float) * self.unit
                if call == self.nan_at:
                    ev['nan'] = True
                    u = rng.random()
                    if ask and u < 0.35 and self.N > 1:
                        J[:] = 0.0                  # finite values, but no step is defined
                    elif ask and u < 0.7:
                        J[rng.randrange(self.N), rng.randrange(self.N)] = np.nan
                    else:
                        Rf[rng.randrange(self.N)] = np.nan
                    rec.emit(**ev)
                    return (Rf, J) if ask else (Rf,)
                if c['ls']:
                    self.mode = 'full'
                    self.g0 = dot(self.d, [Fr(v) for v in R])
                    self.lo, self.hi, self.glo, self.ghi, self.it = 0, 2 ** c['ls'], self.g0, None, 0
                else:
                    self.advance(1, 1)
            else:
                R = self.smallR()
                if not self.exact(self.ss, self.ys) and any(self.R):
                    while self.tie(dot(self.d, [Fr(v) for v in R])):
                        R = self.smallR()
                ev['r'] = R
                Rf = np.array(R, dtype=float) * self.unit
                J = np.eye(self.N)
                self.probe(dot(self.d, [Fr(v) for v in R]))
            rec.emit(**ev)
            return (Rf, J) if ask else (Rf,)

        def tie(self, g):
            """Rounding would decide a comparison of the line search."""
            tol = Fr(self.c['tn'], self.c['td'])
            return g == 0 or abs(g) in (tol * abs(self.g0), abs(self.g0), abs(self.glo), abs(self.ghi or 0))

        def probe(self, g):
            c = self.c
            one = 2 ** c['ls']
            tol = Fr(c['tn'], c['td'])
            if self.mode == 'full':
                self.ghi = g
                self.mode = 'mid'
                if g * self.g0 > 0 or (not c['same'] and abs(g) < tol * abs(self.g0)):
                    self.advance(1, 1)
                return
            m = (self.lo + self.hi) // 2
            self.it += 1
            if g * self.glo < 0:
                self.hi, self.ghi = m, g
            else:
                self.lo, self.glo = m, g
            ok = abs(self.glo) < tol * abs(self.g0) if c['same'] else abs(g) < tol * abs(self.g0)
            if ok or self.it == c['ls']:
                pick = self.lo if c['same'] or abs(self.glo) < abs(self.ghi) else self.hi
                self.advance(pick or self.hi, one)

    names = ['xtol', 'rtol', 'etol', 'xtol_rel', 'rtol_rel', 'etol_rel']

    def solve_case(i):
        N = rng.choice([1, 2, 2, 3])
        ls = rng.choice([0, 0, 0, 1, 2, 3]) if extra.get('FOCUS') == 'S01' else rng.choice([0, 1, 2, 3])
        freq = rng.choice([1, 1, 2, 3, 4]) if ls < 3 else rng.choice([1, 1, 2])
        if N == 3 and freq > 2:
            N = 2
        unit = rng.choice([1.0, 1.0, 2.0 ** -20])
        mx = rng.choice([1, 2, 3, 4, 6, 9])
        tolv = {k: rng.choice([Fr(1, 2), Fr(3, 2), Fr(5, 2), Fr(9, 2), Fr(1, 8)]) for k in names}
        tolv['etol'] = rng.choice([Fr(1, 2), Fr(5, 2), Fr(17, 2)])
        for k in names[3:]:
            tolv[k] = rng.choice([Fr(1, 4), Fr(1, 2), Fr(3, 4), Fr(1, 8)])
        if rng.random() < 0.15:                     # never met: strictly below zero
            tolv[rng.choice(names)] = Fr(0)
        stop = rng.sample(names, rng.choice([1, 1, 2, 3]))
        acc = rng.sample(names, rng.choice([0, 0, 1, 2]))
        if rng.random() < 0.25:
            stop = []
        cfg = dict(max_steps=mx, reform_freq=freq, verbose=rng.choice([False, True]), stopping_tol=stop,
                   accepting_tol=acc, line_search_iters=ls, line_search_same_sign=rng.choice([True, False]))
        tn, td = rng.choice([(1, 2), (1, 4), (3, 4)])
        cfg['line_search_tol'] = tn / td
        for k in names:
            sc = {'xtol': unit, 'rtol': unit, 'etol': unit * unit}.get(k, 1.0)
            if k in stop + acc or rng.random() < 0.5:
                cfg[k] = float(tolv[k]) * sc
        arg = None
        if rng.random() < 0.3:                      # tolerance of this call only
            t = rng.choice([Fr(1, 2), Fr(7, 2), Fr(3, 4), Fr(0)])
            arg = float(t) * unit
            tolv['xtol'] = t
        elif cfg.get('xtol') is None or rng.random() < 0.2:
            cfg['xtol'] = None
            tolv['xtol'] = Fr(1e-6 * N / unit).limit_denominator(64)
            if tolv['xtol'] == 0:
                tolv['xtol'] = Fr(1, 32)
        solver = NonlinearSolverOMP(config={})
        given = dict(cfg)
        if rng.random() < 0.4:                      # every setting spelled out
            given = dict(solver.config, **cfg)
        if rng.random() < 0.5:
            solver = NonlinearSolverOMP(config=given)
        else:
            solver.edit_config(given)
        # the caller goes on with the same dictionary
        given.update(max_steps=mx + 1, reform_freq=1, stopping_tol=['rtol'], rtol=0.0, line_search_iters=0)
        before = {k: (list(v) if isinstance(v, list) else v) for k, v in solver.config.items()}
        c = dict(N=N, max=mx, freq=freq, ls=ls, iters=ls, tn=tn, td=td, same=cfg['line_search_same_sign'],
                 grid=GRID, stop=stop, acc=acc, tol={k: [v.numerator, v.denominator] for k, v in tolv.items()},
                 direct=False)
        x0 = [GRID * rng.randint(-3, 3) for _ in range(N)]
        r = rng.random()
        env = Env(c, x0, unit, nan_at=rng.randrange(6) if r < 0.12 else -1,
                  raise_at=rng.randrange(4) if 0.12 < r < 0.22 else -1,
                  zero_at=rng.randrange(5) if 0.2 < r < 0.45 else -1)
        rec.begin(['solve', i, cfg, arg, N], nontrivial=mx > 1, c=c, x0=x0)
        X0 = np.array(x0, dtype=float) / GRID * unit
        X0c = X0.copy()
        kw = {}
        if arg is not None:
            kw['xtol'] = arg
        if rng.random() < 0.3:
            kw['verbose'] = rng.choice([True, False])
        res, exc = guard(solver.nsolve, env, X0, limit=60, **kw)
        conf = solver.config == before and bool(np.array_equal(X0, X0c))
        if exc is not None:
            rec.emit(op='exc', exc=exc, expected=exc == 'ZeroDivisionError', conf=bool(conf))
        else:
            X, R, J, sol = res
            rec.emit(op='ret', succ=bool(sol['success']), nf=int(sol['nfev']), nj=int(sol['njev']),
                     x=[Q(v / unit, GRID) for v in np.asarray(X).ravel()], conf=bool(conf))

    def ls_case(i, b):
        """One direct line search with the projected residuals of a model behaviour."""
        N = rng.choice([1, 2, 3])
        c0, g0, seen = b['c'], b['g0'], dict((k, g) for k, g in b['s'])
        dx = [1] + [rng.choice([0, 2, -2]) for _ in range(N - 1)]
        rng.shuffle(dx)
        j = [a for a in range(N) if abs(dx[a]) == 1][0]

        def Rof(g):
            r = [rng.randint(-2, 2) for _ in range(N)]
            r[j] = 0
            r[j] = (g - sum(a * b for a, b in zip(r, dx))) * dx[j]
            return r
        one = 2 ** c0['iters']
        cfg = dict(line_search_iters=c0['iters'], line_search_tol=c0['tn'] / c0['td'],
                   line_search_same_sign=c0['same'], verbose=rng.choice([True, False]))
        solver = NonlinearSolverOMP(config=cfg)
        x0 = [GRID * rng.randint(-2, 2) for _ in range(N)]
        r0 = Rof(g0)
        c = dict(N=N, max=1, freq=1, ls=c0['iters'], iters=c0['iters'], tn=c0['tn'], td=c0['td'], same=c0['same'],
                 grid=GRID, stop=[], acc=[], tol={k: [1, 1] for k in names}, direct=True)
        rec.begin(['ls', i, cfg, g0, b['s']], c=c, x0=x0, dx=dx, r0=r0)
        X, D = np.array(x0, dtype=float) / GRID, np.array(dx, dtype=float)
        known = {}

        def fun(Xa, calc_grad=True):
            Xa = np.asarray(Xa, dtype=float)
            k = Q((Xa[j] - X[j]) / D[j], one)
            R = Rof(seen.get(k, rng.choice([-4, -1, 0, 1, 4])))
            known[k] = R
            rec.emit(op='eval', g=bool(calc_grad), x=[Q(v, GRID) for v in Xa], nan=False, r=R, ji=[], **{'raise': False})
            if len(known) > 50:
                raise RuntimeError('runaway')
            return (np.array(R, dtype=float),)
        res, exc = guard(solver.line_search, fun, X.copy(), np.array(r0, dtype=float), D.copy())
        if exc is not None:
            rec.emit(op='exc', exc=exc, expected=False, conf=True)
            return
        alpha, sol = res
        k = Q(alpha, one)
        rok = True
        if 'R(alpha)' in sol:
            rok = bool(np.array_equal(np.asarray(sol['R(alpha)']), np.array(known.get(k, r0 if k == 0 else [BAD] * N))))
        rec.emit(op='ls', alpha=k, nf=int(sol['nfev']), rok=rok)

    focus = extra.get('FOCUS')
    if focus == 'S02':
        beh = json.load(open(extra['beh']))['ls']
        idx = list(range(len(beh)))
        rng.shuffle(idx)
        for i in idx[: 900 if tier == 'quick' else len(beh)]:
            ls_case(i, beh[i])
    for i in range({'quick': 500, 'thorough': 6000}[tier] if focus == 'S01' else {'quick': 300, 'thorough': 4000}[tier]):
        solve_case(i)


if __name__ == '__main__':
    driver_main(run)
