"""Predictor, corrector and branch following.  C03."""
import json, math
from fractions import Fraction as Fr
from vlib import *
import numpy as np


def run(rec, tier, rng, extra):
    from tmdsimpy.continuation import Continuation
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    quick = tier == 'quick'

    def solver_of(kind):
        return NonlinearSolver() if kind == 'base' else NonlinearSolverOMP(config=dict(
            verbose=False, max_steps=25 if kind == 'omp' else 60, xtol=1e-10, reform_freq=1 if kind == 'omp' else 2))

    # ----------------------------------------------------------------- predictor
    def isq(n):
        r = math.isqrt(n)
        return r if r * r == n else None

    def predict_case(i):
        N = rng.choice([1, 2, 3, 4])
        while True:
            t = [rng.randint(-4, 4) for _ in range(N + 1)]
            xc = [rng.randint(-3, 3) for _ in range(N)]
            bn = rng.choice([1, 2, 3, 4, 5, 6, 7])
            W = sum(v * v for v in xc)
            if W == 0 or not any(t):
                continue
            q = Fr((8 - bn) * sum(v * v for v in t[:-1]) + bn * W * t[-1] ** 2, 8 * W)
            a, b = isq(q.numerator), isq(q.denominator)
            if a and b and a <= 40:
                break
        cp = [rng.choice([1, 2, 3, 4]) for _ in range(N + 1)]
        tries = 0
        u = [a_ * b_ for a_, b_ in zip(cp, t)]
        while True:
            J = []
            for _ in range(2000):
                if len(J) == N:
                    break
                r = [rng.randint(-3, 3) for _ in range(N + 1)]
                k = rng.choice([j for j in range(N + 1) if u[j] != 0])
                r[k] = 0
                dd = sum(x * y for x, y in zip(r, u))
                if dd % u[k] == 0:
                    r[k] = -dd // u[k]
                    J.append(r)
            Ja = np.array(J, dtype=float)
            tries += 1
            if tries > 30:
                return predict_case(i)
            if len(J) == N and np.linalg.matrix_rank(Ja) == N and np.linalg.cond(Ja) < 500:
                break
        kind = rng.choice(['base', 'omp'])
        rec.begin(['predict', i, t, xc, bn, cp, J, kind], pos=0)
        ch = [rng.randint(-4, 4) for _ in range(N + 1)]
        lam = rng.randint(-3, 3)
        XP0 = np.array([x * p for x, p in zip(xc, cp[:-1])] + [lam], dtype=float)
        prev = XP0 - np.array([x * p for x, p in zip(ch, cp)], dtype=float)
        while True:
            dprev = np.array([rng.randint(-3, 3) for _ in range(N + 1)], dtype=float)
            if abs(dprev @ np.array(t)) > 0.5:
                break
        cfg = dict(FracLam=bn / 8.0, DynamicCtoP=rng.random() < 0.4, corrector=rng.choice(['Ortho', 'Pseudo']))
        o, ex = guard(Continuation, solver_of(kind), 0.1, np.array(cp, dtype=float), None, cfg)
        if ex:
            return rec.emit(op='exc', exc=ex)

        def fun(X, calc_grad=True):
            return np.zeros(N), Ja[:, :-1].copy(), Ja[:, -1].copy()
        A = [XP0.copy(), prev.copy(), dprev.copy()]
        d, ex = guard(o.predict, fun, *A)
        if ex:
            return rec.emit(op='exc', exc=ex)
        rec.emit(op='predict', J=J, cp=cp, xc=xc, bn=bn, p=a, d=QV(np.asarray(d) * a, 1), ch=ch,
                 argchanged=not (np.array_equal(A[0], XP0) and np.array_equal(A[1], prev) and np.array_equal(A[2], dprev)))

    # ----------------------------------------------------------------- corrector
    def correct_case(i):
        N = rng.choice([1, 2, 3])
        while True:
            x0 = [rng.randint(-2, 2) for _ in range(N)] + [rng.randint(-3, 3)]
            W = sum(v * v for v in x0[:-1])
            if W in (1, 2, 4, 8):
                break
        x = [rng.randint(-4, 4) for _ in range(N + 1)]
        dr = [rng.randint(-3, 3) for _ in range(N + 1)]
        bn, k = rng.choice([1, 2, 3, 4, 6, 7]), rng.choice([1, 2, 4])
        cp = [rng.choice([1, 2, 3]) for _ in range(N + 1)]
        kind = rng.choice(['ortho', 'pseudo'])
        rp = rng.choice([1, 2, 3])
        rec.begin(['correct', i, x0, x, dr, bn, k, cp, kind, rp], pos=0)
        A = np.array([[rng.randint(-3, 3) for _ in range(N + 1)] for _ in range(N)])

        def raw(X):
            X = np.asarray(X)
            J = A.astype(float).copy()
            J[:, :N] = J[:, :N] + 2 * np.diag(X[:N])
            return A @ X + X[:N] ** 2, J[:, :-1], J[:, -1]
        calls = []

        def fun(X, calc_grad=True):
            calls.append(calc_grad)
            r = raw(X)
            return r if calc_grad else (r[0],)
        f = lambda v: np.array(v, dtype=float)
        name = {'ortho': rng.choice(['Ortho', 'ORTHO', 'ortho']), 'pseudo': rng.choice(['Pseudo', 'pseudo'])}[kind]
        o, ex = guard(Continuation, NonlinearSolver(), 0.1, f(cp), float(rp), dict(FracLam=bn / 8.0, corrector=name))
        if ex:
            return rec.emit(op='exc', exc=ex)
        R, JX, Jl = raw(f(x) * f(cp))
        J = np.hstack((JX, Jl[:, None]))
        W8 = 8 * W
        com = dict(x=x, x0=x0, dir=dr, bn=bn, k=k, kind=kind)
        for grad in (True, False):
            args = [f(x), f(x0)]
            kw = {} if grad and rng.random() < 0.5 else dict(calc_grad=grad)
            r, ex = guard(o.correct_res, fun, args[0], args[1], 1.0 / k, f(dr), **kw)
            if ex:
                return rec.emit(op='exc', exc=ex)
            Ra = np.asarray(r[0])
            rec.emit(op='correct', R=QV(R), J=QM(J), Raug=QV(Ra[:-1]) + [Q(Ra[-1], W8)], rp=rp, cp=cp, grad=grad, nret=len(r),
                     Jaug=(QM(r[1][:-1]) + [QV(r[1][-1], W8)]) if len(r) > 1 else [],
                     argchanged=not (np.array_equal(args[0], x) and np.array_equal(args[1], x0)), **com)
        b = bn / 8.0
        cc = (1 - b) / W
        if kind == 'ortho':
            r, ex = guard(o.orthogonal_arc_res, f(x), f(x0), f(dr), 1.0 / k, b, cc)
        else:
            r, ex = guard(o.pseudo_arc_res, f(x), f(x0), 1.0 / k, b, cc)
        if ex:
            return rec.emit(op='exc', exc=ex)
        rec.emit(op='arc', r=Q(r[0], W8), g=QV(r[1], W8), **com)

    # ---------------------------------------------------------------------- runs
    class Branch:
        """lam = g(x); further unknowns are functions of x, lam; rows mixed."""

        def __init__(self, N, shape, off, mix):
            self.N, self.shape, self.off, self.mix = N, shape, off, mix

        def g(self, x):
            x = x - self.off
            if self.shape == 's':
                return x ** 3 - 3 * x, 3 * x ** 2 - 3
            if self.shape == 'soft':
                return 0.25 * x ** 3 + 0.5 * x, 0.75 * x ** 2 + 0.5
            return x, np.ones_like(x)

        def eq(self, X):
            N = self.N
            x, lam = X[0], X[N]
            g, gp = self.g(x)
            R = np.zeros(N)
            J = np.zeros((N, N + 1))
            R[0], J[0, 0], J[0, N] = g - lam, gp, -1
            if N > 1:
                R[1] = X[1] - 1 - x * x / 4
                J[1, 0], J[1, 1] = -x / 2, 1
            if N > 2:
                R[2] = X[2] + 1 - lam / 4
                J[2, 2], J[2, N] = 1, -0.25
            return self.mix @ R, self.mix @ J

    def run_case(i, scale_check):
        N = rng.choice([1, 2, 2, 3])
        shape = rng.choice(['s', 's', 'soft', 'line'])
        off = 4.0 if N == 1 else rng.choice([0.0, 0.5])
        sg = rng.choice([1, -1])
        mix = np.eye(N)
        for _ in range(2 if N > 1 else 0):
            a, b = rng.sample(range(N), 2)
            mix[a] += rng.choice([-1, 1]) * mix[b]
        br = Branch(N, shape, off, mix)
        ends = {'s': (-2.5, 2.5), 'soft': (-2.0, 2.0), 'line': (-1.5, 1.5)}[shape]
        lam0, lam1 = ends if sg > 0 else ends[::-1]
        xs = {'s': 2.054, 'soft': 1.67, 'line': 1.5}[shape] * -sg + off
        kind = rng.choice(['ortho', 'pseudo'])
        sk = rng.choice(['base', 'omp', 'qn'])
        wl = rng.choice([[4], [2], [5], [3], [4], [2], [3], [6]])
        C0 = np.array([rng.choice([0.5, 1.0, 2.0]) for _ in range(N + 1)])
        none = rng.random() < 0.2
        if none:
            C0 = np.ones(N + 1)
        dyn = rng.random() < 0.4
        # steps no longer than 0.15 in x (folds have a radius of curvature of about 1/6 at worst) and 0.4 in lam
        xm = np.array([2.1 + off, 2.5, 2.0][:N])
        cm = np.maximum(C0[:N], xm) if dyn else C0[:N]
        xcm = np.linalg.norm(xm / cm) if not dyn else math.sqrt(N) + 1
        cl = max(C0[-1], 2.7) if dyn else C0[-1]
        bb = wl[0] / 8.0
        dsmax = min(0.15 * math.sqrt(1 - bb) / (cm[0] * xcm), 0.6 * math.sqrt(bb) / cl)
        if kind == 'ortho' and shape == 's':
            # the plane of the orthogonality condition must cut the branch nearby: no step beyond the radius of
            # curvature of the folds (in the weighted norm)
            al, be = math.sqrt(1 - bb) / xcm, math.sqrt(bb)
            ds1 = min(dsmax, C0[-1] * al ** 2 / (6 * be * cm[0] ** 2))
            if (5.0 / C0[0] * al + 13.0 / C0[-1] * be) / ds1 < 330:
                dsmax = ds1
            else:
                kind = 'pseudo'
        ds0 = rng.choice([1.0, 0.5]) * dsmax
        cfg = dict(FracLam=wl[0] / 8.0, corrector=kind.capitalize(), DynamicCtoP=dyn, verbose=rng.choice([-1, 0, 1]),
                   MaxSteps=400, dsmin=ds0 / 64, dsmax=dsmax, TargetNfev=dict(base=20, qn=9).get(sk) or rng.choice([5, 8]), nsolve_verbose=False,
                   xtol=1e-10)
        rec.begin(['run', i, N, shape, sg, kind, sk, wl, C0.tolist(), dyn, ds0], c0=FV(C0, 1e-3), dyn=dyn, dir=sg,
                  up=sg, kind=kind, pos=F(xs - sg, 1e-5))
        D = np.ones(N + 1)
        base = drive(br, D, lam0, lam1, xs, cfg, None if none else C0, ds0, sk, rec.emit, wl[0], shape, sg, N,
                     again=i % 2 == 0)
        if base is None:
            return
        if scale_check:
            for which in range(2):
                D = np.array([rng.choice([0.25, 0.5, 2.0, 4.0, 8.0]) for _ in range(N + 1)])
                if which == 0:
                    D[-1] = 1.0
                r2 = drive(br, D, lam0, lam1, xs, cfg, C0, ds0, sk, lambda **k: None, wl[0], shape, sg, N)
                if r2 is None:
                    rec.emit(op='exc', exc='rescaled-run')
                    return
                rec.emit(op='scaled', a=[FV(r, 1e-5) for r in base], b=[FV(r * D, 1e-5) for r in r2])

    def drive(br, D, lam0, lam1, xs, cfg, C0, ds0, sk, emit, bn, shape, sg, N, again=False):
        """physical unknowns are Y = X / D; conditioning C0 / D"""
        def fun(Y, calc_grad=True):
            R, J = br.eq(np.asarray(Y) * D)
            if not calc_grad:
                return (R,)
            J = J * D
            return R, J[:, :-1], J[:, -1]
        s = solver_of(sk)
        orig = s.nsolve
        st = dict(prev=None, chord=None, first=True)

        def nsolve(f, X0, **kw):
            r = orig(f, X0, **kw)
            if st['first']:
                st['first'] = False
                if sk == 'qn':      # quasi-Newton updates for the start point only
                    s.edit_config(dict(reform_freq=1))
                return r
            XC, R, J, sol = r
            seen = []
            # conditioning: the physical point behind the guess
            def probe(X):
                return f(X)
            st['guess'], st['sol'], st['succ'] = np.array(X0), np.array(XC), bool(sol['success'])
            try:
                a, b = f(np.array(XC)), f(np.array(XC), calc_grad=False)
                st['gradok'] = bool(np.allclose(np.asarray(a[0]), np.asarray(b[0]), rtol=1e-12, atol=1e-12))
            except Exception:
                st['gradok'] = False
            return r
        s.nsolve = nsolve
        last = {}
        wrap = {}

        def spy(Y, calc_grad=True):
            wrap['Y'] = np.array(Y)
            return fun(Y, calc_grad)

        def cb(P, d):
            P, d = np.asarray(P), np.asarray(d)
            if st.get('mute') or np.any(np.isnan(P)):
                return
            if st['prev'] is None:
                st['prev'] = P.copy()
                return
            prev = st['prev']
            # effective conditioning from the physical solution and its conditioned image
            cp = np.where(st['sol'] != 0, P / np.where(st['sol'] == 0, 1, st['sol']), np.nan)
            xc0 = prev / cp
            gd = st['guess'] - xc0
            dirC = d / cp
            ds = np.linalg.norm(gd) / np.linalg.norm(dirC)
            R, J = br.eq(prev * D)
            tan = (J * D) @ d / (np.linalg.norm((J * D) * cp) * np.linalg.norm(dirC))
            stepv = (P - prev) / cp / ds
            res = br.eq(P * D)[0]
            ch = np.zeros(N + 1) if st['chord'] is None else st['chord'] / cp
            n = np.linalg.norm(ch)
            ch = ch / n if n > 0 else ch
            emit(op='step', cp=FV(cp * D, 1e-3), prev=FV(prev * D, 1e-3), xc0=FV(xc0, 1e-3), dir=FV(dirC, 1e-3),
                 step=FV(stepv, 1e-3), chord=FV(ch, 1e-3), tan=FV(tan, 1e-3), res=FV(res, 1e-7), bn=bn,
                 pos=F(P[0] * D[0], 1e-5), succ=True, gradok=st.get('gradok', False))
            st['chord'] = P - prev
            st['prev'] = P.copy()
        o, ex = guard(Continuation, s, ds0, None if C0 is None else C0 / D, None, dict(cfg, callback=cb))
        if ex:
            emit(op='exc', exc=ex)
            return None
        X0 = np.zeros(N + 1)
        X0[0] = xs
        if N > 1:
            X0[1] = 1 + xs * xs / 4
        if N > 2:
            X0[2] = -1 + lam0 / 4
        if sk == 'qn':
            X0[:N] += [rng.choice([-2e-4, 2e-4]) for _ in range(N)]
        res, ex = guard(o.continuation, fun, X0 / D, lam0 / D[-1], lam1 / D[-1], limit=120)
        if ex:
            emit(op='exc', exc=ex)
            return None
        lam = res[:, -1] * D[-1]
        folds = True
        if shape == 's':
            x = res[:, 0] * D[0] - br.off
            folds = bool(np.any(np.abs(x) < 0.5) and np.any(x > 1.2) and np.any(x < -1.2))
        reached = bool(sg * lam[-1] >= sg * lam1)
        emit(op='end', reached=reached or len(res) >= cfg['MaxSteps'], folds=folds or not reached)
        if again and sk != 'qn':
            # the same run once more with the same object
            st['mute'] = True
            r2, ex = guard(o.continuation, fun, X0 / D, lam0 / D[-1], lam1 / D[-1], limit=120)
            if ex:
                emit(op='exc', exc=ex)
                return None
            emit(op='again', a=[FV(r, 1e-5) for r in res * D], b=[FV(r, 1e-5) for r in r2 * D])
        return res

    for i in range(400 if quick else 6000):
        predict_case(i)
    for i in range(300 if quick else 4000):
        correct_case(i)
    for i in range(30 if quick else 500):
        run_case(i, i % 5 == 0)


if __name__ == '__main__':
    driver_main(run)
