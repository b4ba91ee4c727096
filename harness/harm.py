"""Harmonic representation, utilities, linear prediction.  FOCUS: H01, H02, H03."""
import math, os
from fractions import Fraction as Fr
from vlib import *
import numpy as np


def unimodular(rng, n, steps=None):
    P = np.eye(n, dtype=int)
    for _ in range(steps if steps is not None else n):
        if n > 1:
            a, b = rng.sample(range(n), 2)
            P[a] += rng.choice([-1, 1]) * P[b]
    return P


# divisors of 192 or 1260 (the tables of the specification); synthesis documents even counts only
NTS = (4, 5, 6, 7, 8, 9, 10, 12, 14, 15, 16, 18, 20, 21, 24, 30, 32, 35, 45, 48, 63, 64, 70, 90)


def hlist(rng, zero=None, need1=False, kmax=7):
    ks = list(range(1, kmax + 1))
    s = set(rng.sample(ks, rng.randint(1, 4)))
    if rng.random() < 0.35:
        s = set(range(1, rng.randint(2, 5)))
    if need1:
        s.add(1)
    h = sorted(s)
    if zero is None:
        zero = rng.random() < 0.6
    if not need1 and zero and rng.random() < 0.1:
        return [0]
    return ([0] if zero else []) + h


def run(rec, tier, rng, extra):
    focus = extra['FOCUS']
    quick = tier == 'quick'
    import tmdsimpy.utils.harmonic as hu
    ints = lambda n, a=5: [rng.randint(-a, a) for _ in range(n)]
    imat = lambda r, q, a=5: [ints(q, a) for _ in range(r)]

    def exc(ex):
        rec.emit(op='exc', prop=focus, exc=ex)

    def ncomp(h):
        return sum(1 if k == 0 else 2 for k in h)

    # ------------------------------------------------------------------ H01
    def mods():
        import tmdsimpy.jax.harmonic_utils as jh
        return jh

    def samples(i, lib):
        h = hlist(rng, kmax=rng.choice([7, 7, 7, 13]))
        nd = rng.choice([1, 1, 2, 3])
        need = 2 * max(h) + 2
        nt = rng.choice([n for n in NTS if n >= need and n % 2 == 0][:6])
        if lib == 'jax':
            h, nd, nt = rng.choice([([0, 1, 2, 3], 2, 16), ([1, 3], 1, 16), ([0, 2, 3], 2, 8), ([0, 1, 5], 1, 32), ([0, 2, 3], 1, 10), ([1, 4], 2, 14)])
        order = rng.choice([0, 0, 1, 1, 2, 2, 3, 4])
        X = imat(ncomp(h), nd)
        rec.begin(['samples', i, lib, h, nt, order, X])
        A = np.array(X, dtype=float)
        H = np.array(h)
        m = hu if lib == 'np' else mods()
        hh = H if lib == 'np' else tuple(h)
        xt, ex = guard(m.time_series_deriv, nt, hh, A, order)
        if ex:
            return exc(ex)
        kmax = nt // 2 - 1
        hall = np.arange(kmax + 1)
        back, ex = guard(m.get_fourier_coeff, hall if lib == 'np' else tuple(range(kmax + 1)), xt)
        if ex:
            return exc(ex)
        xt, back = np.asarray(xt), np.asarray(back)
        rec.emit(op='samples', h=h, nt=nt, order=order, X=X, kmax=kmax, xt=[FV(r, 1e-6) for r in xt] if order == 0 else
                 [[0] * xt.shape[1]] * xt.shape[0], back=QM(back),
                 argchanged=not (np.array_equal(A, X) and np.array_equal(H, h)))

    def project(i, lib):
        nt = rng.choice(NTS)
        nd = rng.choice([1, 1, 2, 3])
        h = sorted(rng.sample(range(0, nt // 2), min(nt // 2, rng.randint(1, 4))))
        if lib == 'jax':
            h, nd, nt = rng.choice([([0, 1, 2, 3], 2, 16), ([1, 3], 1, 16), ([0, 2, 3], 2, 8), ([0, 1, 5], 1, 32), ([0, 2, 3], 1, 9), ([1, 4], 2, 15)])
        xs = imat(nt, nd)
        rec.begin(['project', i, lib, h, nt, nd, xs[:4]])
        A = np.array(xs, dtype=float)
        H = np.array(h)
        m = hu if lib == 'np' else mods()
        v, ex = guard(m.get_fourier_coeff, H if lib == 'np' else tuple(h), A)
        if ex:
            return exc(ex)
        rec.emit(op='project', h=h, nt=nt, xs=xs, v=[FV(r, 1e-6) for r in np.asarray(v)],
                 argchanged=not (np.array_equal(A, xs) and np.array_equal(H, h)))

    def nhc(i):
        h = hlist(rng)
        if rng.random() < 0.3:
            h = sorted(h + [rng.choice(h)])
        rec.begin(['nhc', h])
        n, ex = guard(hu.Nhc, np.array(h))
        rec.emit(op='nhc', h=h, n=Q(n) if not ex else 0, exc=ex or 'none')

    def stiff(i):
        h = hlist(rng)
        nd = rng.choice([1, 1, 2, 3])
        w = rng.choice([-1, 1, 1, 1]) * rng.randint(0, 6)
        onlyc = rng.random() < 0.25
        M, C, K = imat(nd, nd), imat(nd, nd), imat(nd, nd, 9)
        rec.begin(['stiff', i, h, w, onlyc, M, C, K])
        grad = rng.random() < 0.7
        A = [np.array(x, dtype=float) for x in (M, C, K)]
        H = np.array(h)
        if onlyc:
            a = [None, A[1], None]
        else:
            a = A
        kw = {}
        if not grad or rng.random() < 0.5:
            kw['calc_grad'] = grad
        if onlyc or rng.random() < 0.3:
            kw['only_C'] = onlyc
        r, ex = guard(hu.harmonic_stiffness, a[0], a[1], a[2], float(w), H, **kw)
        if ex:
            return exc(ex)
        rec.emit(op='stiff', h=h, w=w, onlyc=onlyc, M=M, C=C, K=K, grad=grad, nret=len(r), E=QM(r[0]),
                 dE=QM(r[1]) if len(r) > 1 else [],
                 argchanged=not all(np.array_equal(p, q) for p, q in zip(A, (M, C, K))))

    # ------------------------------------------------------------------ H02
    def rotate(i):
        h = hlist(rng)
        nd, a, m = rng.choice([1, 2, 3]), rng.choice([0, 0, 1, 3]), rng.choice([1, 1, 2, 3])
        pos = [k for k in h if k] or [1]
        hr = rng.choice(pos + [rng.choice([1, 2, 3])])
        U = imat(m, ncomp(h) * nd + a, 9)
        p = [rng.choice([0, 48, 96, 24, 16, rng.randint(-190, 190)]) for _ in range(m)]
        one = m == 1 and rng.random() < 0.5
        scalar = rng.random() < 0.4 or one
        if scalar:
            p = [p[0]] * m
        rec.begin(['rotate', i, h, nd, hr, U, p], nontrivial=any(p))
        ph = np.array([math.pi * q * hr / 96 for q in p])
        A = np.array(U, dtype=float)
        if one:
            A = A[0]
        B, P = A.copy(), ph.copy()
        V, ex = guard(hu.rotate_subtract_phase, A, nd, np.array(h), float(ph[0]) if scalar else ph, hr)
        if ex:
            return exc(ex)
        rec.emit(op='rotate', h=h, nd=nd, U=U, p=p, V=[FV(r, 1e-6) for r in np.asarray(V)],
                 argchanged=not (np.array_equal(A, B) and np.array_equal(P, ph)))

    def wrap(i):
        n = rng.randint(1, 6)
        a, edge = [], []
        for _ in range(n):
            k = rng.choice([0, 96, -96, 96, -96, 192, rng.randint(-700, 700), rng.randint(-5000, 5000)])
            f = rng.choice([0, 500, 250])
            if k % 192 == 96 and abs(k) != 96:
                f = 500
            a.append(1000 * k + f)
            edge.append(False)
        rec.begin(['wrap', i, a])
        x = np.array([v / 96000 * math.pi for v in a])
        x0 = x.copy()
        r, ex = guard(hu.shift_pm_pi, x)
        if ex:
            return exc(ex)
        rec.emit(op='wrap', a=a, edge=edge, r=FV(r, math.pi / 96000), argchanged=not np.array_equal(x, x0))

    def cond(i):
        h = hlist(rng)
        nd, m = rng.choice([1, 2, 3, 4]), rng.choice([0, 1, 1, 2, 3, 5, 9])
        X = [rng.choice([0, 0, rng.randint(-9, 9), rng.randint(-3, 3)]) for _ in range(ncomp(h) * nd + m)]
        kind = rng.choice(['default', 'float', 'list', 'array', 'int', 'npfloat'])
        if kind in ('list', 'array'):
            fl = [rng.randint(1, 12) for _ in range(len(h) + 1)]
            d = [v / 4 for v in fl[:len(h) + (1 if m else 0)]]
            d = np.array(d) if kind == 'array' else d
        elif kind == 'default':
            fl, d = None, None
        else:
            q = rng.randint(1, 12) * (4 if kind == 'int' else 1)
            fl = [q] * (len(h) + 1)
            d = {'float': q / 4, 'npfloat': np.float64(q / 4), 'int': q // 4}[kind]
        if kind == 'default':
            # floor 1e-4 cannot be told from 0 at this scale: use magnitudes above it only
            X = [v if v else 1 for v in X]
            fl = [0] * (len(h) + 1)
        rec.begin(['cond', i, h, nd, X, fl, kind])
        A = np.array(X, dtype=float)
        dcopy = np.array(d, dtype=float).copy() if kind in ('list', 'array') else None
        H = np.array(h)
        r, ex = guard(hu.harmonic_wise_conditioning, A, nd, H) if kind == 'default' else \
            guard(hu.harmonic_wise_conditioning, A, nd, H, d) if rng.random() < 0.5 else \
            guard(hu.harmonic_wise_conditioning, A, nd, H, delta=d)
        if ex:
            return exc(ex)
        rec.emit(op='cond', h=h, nd=nd, X=X, floor=fl, c=QV(r, 8 * nd),
                 argchanged=not np.array_equal(A, X) or (dcopy is not None and not np.array_equal(dcopy, d)))
        if kind == 'default':
            # the default floor
            Z = np.zeros(len(X))
            r, ex = guard(hu.harmonic_wise_conditioning, Z, nd, H)
            if ex:
                return exc(ex)
            rec.emit(op='cond', h=h, nd=nd, X=[0] * len(X), floor=[4] * (len(h) + 1), c=QV(np.asarray(r) * 1e4, 8 * nd),
                     argchanged=False)

    def zero(i):
        x = [rng.choice([-3, -2, -1, 0, 1, 2, 3]) for _ in range(rng.randint(1, 9))]
        tol = rng.choice([-1, -1, 4, 8, 6, 12])
        rec.begin(['zero', x, tol])
        A = np.array(x, dtype=float)
        r, ex = guard(hu.zero_crossing, A) if tol < 0 else guard(hu.zero_crossing, A, tol / 4) if rng.random() < 0.5 \
            else guard(hu.zero_crossing, A, zero_tol=tol / 4)
        if ex:
            return exc(ex)
        rec.emit(op='zero', x=x, tol=tol, tf=[bool(v) for v in np.asarray(r)], argchanged=not np.array_equal(A, x))

    # ------------------------------------------------------------------ H03
    from_tmd = {}
    if focus == 'H03':
        import tmdsimpy
        from tmdsimpy.solvers import NonlinearSolver
        from tmdsimpy.jax.solvers import NonlinearSolverOMP
        from_tmd['s'] = [NonlinearSolver(), NonlinearSolverOMP(config=dict(verbose=False))]

    def system(nf):
        """integer M, K with integer modes Phi (columns), eigenvalues lp/lq ascending"""
        P = unimodular(rng, nf)
        inv = np.rint(np.linalg.inv(P)).astype(int)
        mm = [rng.choice([1, 1, 2, 3]) for _ in range(nf)]
        while True:
            # unconstrained structures have a rigid body mode
            kk = [rng.randint(0 if rng.random() < 0.3 and not j else 1, 30) for j in range(nf)]
            if rng.random() < 0.15:
                kk[0] = 0
            lam = [Fr(a, b) for a, b in zip(kk, mm)]
            if len(set(lam)) == nf:
                break
        o = sorted(range(nf), key=lambda j: lam[j])
        M = inv.T @ np.diag(mm) @ inv
        K = inv.T @ np.diag(kk) @ inv
        return M, K, [P[:, j].tolist() for j in o], [kk[j] for j in o], [mm[j] for j in o], [lam[j] for j in o]

    def pick_w(lam, ab, mult=(1,)):
        for _ in range(50):
            w = rng.randint(1, 5)
            if all(abs(float(l) - (w * q) ** 2) > 0.5 for l in lam for q in mult):
                return w
        return None

    def toobig(X, M, K, w, ab):
        if not np.all(np.isfinite(X)):
            return False
        n = len(K)
        mag = max(1, int(np.max(np.abs(X)) * 1e4))
        e = np.max(np.sum(np.abs(K) * (16 + w * ab[1]) + np.abs(M) * (16 * w * w + w * ab[0]), axis=1))
        return mag * e * 4 * n > 1.9e9

    def frf(i):
        base = rng.random() < 0.45
        nf = rng.choice([1, 2, 2, 3])
        Mf, Kf, ph, lp, lq, lam = system(nf)
        nb = rng.choice([1, 1, 2]) if base else 0
        n = nf + nb
        idx = list(range(n))
        rng.shuffle(idx)
        free = sorted(idx[:nf])
        bas = [d for d in range(n) if d not in free]
        M = np.array(imat(n, n, 2))
        K = np.array(imat(n, n, 4))
        M, K = M + M.T, K + K.T
        for a, fa in enumerate(free):
            for b, fb in enumerate(free):
                M[fa, fb], K[fa, fb] = Mf[a, b], Kf[a, b]
        ab = [rng.choice([0, 1, 4]), rng.choice([0, 1, 2])]
        ws = []
        for _ in range(rng.choice([1, 2, 3])):
            w = pick_w(lam, ab)
            if w is None:
                return
            ws.append(w)
        neigs = rng.choice([nf, nf, 3, 5, 1, 2])
        fc, fs = ([0] * n, [0] * n) if base else (ints(n, 3), ints(n, 3))
        nosin = not base and rng.random() < 0.3
        if nosin:
            fs = [0] * n
        ub = ints(2, 2) if base else [0, 0]
        rec.begin(['frf', i, M.tolist(), K.tolist(), ab, ws, fc, fs, ub, free, neigs])
        Ma, Ka = M.astype(float), K.astype(float)
        vs, ex = guard(tmd().VibrationSystem, Ma, Ka, ab=[ab[0] / 16, ab[1] / 16])
        if ex:
            return exc(ex)
        s = rng.choice(from_tmd['s'])
        W = np.array(ws, dtype=float)
        arg = [np.array(fc, dtype=float), np.array(fs, dtype=float), np.array(ub, dtype=float)]
        flag = np.array([d in bas for d in range(n)])
        if len(ws) == 1 and rng.random() < 0.5:
            W = float(ws[0])
        kw = {} if neigs == 3 and rng.random() < 0.7 else dict(neigs=neigs)
        if base:
            X, ex = guard(vs.linear_frf_base, W, arg[2], flag, s, **kw)
        else:
            if not nosin or rng.random() < 0.3:
                kw['Flsin'] = arg[1]
            X, ex = guard(vs.linear_frf, W, arg[0], s, **kw)
        if ex:
            return exc(ex)
        X = np.asarray(X)
        if toobig(X[:, :-1], M, K, max(ws), ab):
            return
        ch = not (np.array_equal(Ma, M) and np.array_equal(Ka, K) and np.array_equal(arg[0], fc) and np.array_equal(
            arg[1], fs) and np.array_equal(arg[2], ub) and np.array_equal(W, ws if np.ndim(W) else ws[0]))
        rec.emit(op='frf', M=M.tolist(), K=K.tolist(), ab=ab, w=ws, fc=fc, fs=fs, ub=ub, free=[d + 1 for d in free],
                 neigs=neigs, ph=ph, lp=lp, lq=lq, X=[FV(r, 1e-4) for r in X], argchanged=ch)

    def tmd():
        import tmdsimpy
        return tmdsimpy

    class Stub:
        """a force whose harmonic force is given"""

        def __init__(self, g):
            self.g, self.seen = np.array(g, dtype=float), None

        def nl_force_type(self):
            return 0

        def aft(self, U, w, h, *a, **k):
            self.seen = (np.array(U), float(w), np.array(h))
            cg = k.get('calc_grad', True)
            n = len(self.g)
            return (self.g.copy(), np.zeros((n, n)), np.zeros(n)) if cg else (self.g.copy(),)

    def predict(i):
        n = rng.choice([1, 2, 2, 3])
        M, K, ph, lp, lq, lam = system(n)
        eq = rng.choice(['HBM', 'HBM_AMP', 'HBM_AMP_PHASE', 'VPRNM_AMP_PHASE', 'VPRNM_AMP_PHASE'])
        h = hlist(rng, need1=True, kmax=6)
        rhi = 0
        if eq[0] == 'V':
            hi = [k for k in h if k > 1]
            if not hi:
                h = h + [3]
                hi = [3]
            rhi = rng.choice(hi)
        ab = [rng.choice([0, 1, 4]), rng.choice([0, 1, 2])]
        w = pick_w(lam, ab, (1, rhi) if rhi else (1,))
        if w is None:
            return
        fc = ints(n, 3)
        if not any(fc):
            fc[0] = 2
        fs = ints(n, 3) if eq in ('HBM', 'HBM_AMP') else [0] * n
        h0 = h[0] == 0
        fst = ints(n, 3) if h0 else []
        rest = ints((ncomp(h) - 2 - h0) * n, 3)
        if rng.random() < 0.3:
            rest = []
        recov = ints(n, 2)
        if not any(recov):
            recov[0] = 1
        order = rng.choice([0, 1, 2])
        amp, fmag = rng.choice([1, 2, 4]), rng.choice([1, 2, -1])
        neigs = rng.choice([3, 3, n, 1, 2])
        xstat = ints(n, 4) if rng.random() < 0.6 else None
        G = ints(ncomp(h) * n, 4)
        rec.begin(['predict', i, eq, M.tolist(), K.tolist(), ab, h, w, fc, fs, recov, order, amp, fmag, neigs, xstat, rhi])
        Ma, Ka = M.astype(float), K.astype(float)
        vs, ex = guard(tmd().VibrationSystem, Ma, Ka, ab=[ab[0] / 16, ab[1] / 16])
        if ex:
            return exc(ex)
        Fl = np.array(fst + fc + fs + rest, dtype=float)
        Fl0 = Fl.copy()
        kw = dict(neigs=neigs) if neigs != 3 or rng.random() < 0.3 else {}
        stub = None
        if xstat is not None:
            kw['Xstat'] = np.array(xstat, dtype=float)
        if eq == 'HBM':
            kw['fmag'] = float(fmag)
        else:
            kw.update(control_amp=float(amp), control_recov=np.array(recov, dtype=float), control_order=order)
        if eq[0] == 'V':
            vnl = tmd().VibrationSystem(Ma.copy(), Ka.copy())
            stub = Stub(G)
            vnl.add_nl_force(stub)
            kw.update(rhi=rhi, vib_sys_nl=vnl)
            if rng.random() < 0.5:
                kw['vprnm_calc_grad'] = rng.random() < 0.5
        if rng.random() < 0.4:             # options documented as without effect on this equation
            if eq == 'HBM':
                kw.update(control_amp=float(amp), control_recov=np.array(recov, dtype=float), control_order=order)
            else:
                kw['fmag'] = rng.choice([3.0, -2.0, 0.5])
            if eq[0] != 'V':
                kw['rhi'] = rng.choice([2, 3])
        name = eq if rng.random() < 0.7 else eq.lower()
        s = rng.choice(from_tmd['s'])
        U, ex = guard(hu.predict_harmonic_solution, vs, float(w), Fl, np.array(h), s, name, **kw)
        if ex:
            return exc(ex)
        U = np.asarray(U)
        if not np.all(np.isfinite(U)) or toobig(U, M, K, w * max(1, rhi), ab) or np.max(np.abs(U)) > 4e3:
            # amplitude control of a dof that does not respond is out of range
            if eq != 'HBM':
                Xc = U
                return
        if eq != 'HBM' and max(abs(fc[j]) for j in range(n)) * np.max(np.abs(U[-4:])) * 1e4 * 16 * n > 1.5e9:
            return
        ub = U[:ncomp(h) * n]
        seen, seenw = [], 0
        if stub is not None:
            if stub.seen is None:
                return exc('force-not-evaluated')
            seen, seenw = FV(stub.seen[0], 1e-4), F(stub.seen[1], 1e-4)
        if eq != 'HBM' and np.max(np.abs(ub)) * w ** order * 4 > 2e4:
            return
        rec.emit(op='predict', eq=eq, M=M.tolist(), K=K.tolist(), ab=ab, h=h, w=w, fc=fc, fs=fs, recov=recov, wo=w ** order,
                 amp=amp, fmag=fmag, neigs=neigs, free=list(range(1, n + 1)), ph=ph, lp=lp, lq=lq,
                 xstat=xstat if xstat is not None else [0] * n, rhi=rhi, fnl=G, seen=seen, seenw=seenw, U=FV(U, 1e-4),
                 argchanged=not (np.array_equal(Fl, Fl0) and np.array_equal(Ma, M) and np.array_equal(Ka, K)))

    k = 1 if quick else 12
    if focus == 'H01':
        for i in range(260 * k):
            samples(i, 'np')
        for i in range(120 * k):
            project(i, 'np')
        for i in range(40):
            nhc(i)
        for i in range(150 * k):
            stiff(i)
        for i in range(24 * k):
            samples(i, 'jax')
        for i in range(12 * k):
            project(i, 'jax')
    elif focus == 'H02':
        for i in range(400 * k):
            rotate(i)
        for i in range(100 * k):
            wrap(i)
        for i in range(400 * k):
            cond(i)
        for i in range(150 * k):
            zero(i)
    else:
        for i in range(500 * k):
            frf(i)
        for i in range(500 * k):
            predict(i)


if __name__ == '__main__':
    driver_main(run)
