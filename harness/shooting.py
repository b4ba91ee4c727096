"""Shooting residuals, motions, stability (R04)."""
import math
from vlib import *
guard0 = guard
import numpy as np

UN = 1000


def run(rec, tier, rng, extra):
    quick = tier == 'quick'
    from tmdsimpy.vibration_system import VibrationSystem
    from tmdsimpy.nlforces.cubic_stiffness import CubicForce
    from tmdsimpy.nlforces.unilateral_spring import UnilateralSpring
    from tmdsimpy.nlforces.general_poly_stiffness import GenPolyForce
    from tmdsimpy.postprocess import shooting as post
    ri = rng.randint
    ints = lambda n, a: [ri(-a, a) for _ in range(n)]

    def guard(*a, **k):
        return guard0(*a, limit=25, **k)

    def exc(ex):
        rec.emit(op='exc', prop='R04', exc=ex)

    def unimodular(n):
        P = np.eye(n, dtype=int)
        for _ in range(2 * n):
            i, j = ri(0, n - 1), ri(0, n - 1)
            if i != j:
                P[i] += rng.choice([-1, 1]) * P[j]
        if np.abs(P).max() > 3:
            return unimodular(n)
        return P

    def make_force(n):
        kind = rng.choice(['cubic', 'cubic', 'quad', 'lin', 'uni'])
        nl = ri(1, min(2, n))
        Q = np.array([ints(n, 1) for _ in range(nl)]).reshape(nl, n)
        if not Q.any():
            Q[0, 0] = 1
        T = Q.T.copy() if rng.random() < 0.6 or kind == 'cubic' else np.array([ints(nl, 1) for _ in range(n)]).reshape(n, nl)
        Qf, Tf = Q.astype(float), T.astype(float)
        a = [ri(1, 2) for _ in range(nl)]
        d = dict(kind=kind, Q=Q.tolist(), T=T.tolist(), a=a)
        if kind == 'cubic':
            return d, CubicForce(Qf, Tf, np.array(a, dtype=float))
        if kind == 'lin':
            return d, GenPolyForce(Qf, Tf, np.diag(np.array(a, dtype=float)), np.eye(nl))
        if kind == 'quad':
            E = np.diag(np.array(a, dtype=float))
            q = np.zeros((nl, nl))
            for j in range(nl):
                q[j, j] += 1
                q[j, (j + 1) % nl] += 1
            return d, GenPolyForce(Qf, Tf, E, q)
        Np, d2 = ints(nl, 1), [rng.choice([-1, 1]) for _ in range(nl)]
        d.update(N=Np, d2=d2)
        return d, UnilateralSpring(Qf, Tf, np.array(a, dtype=float), Npreload=np.array(Np, dtype=float), delta=np.array(d2) / 2)

    def motion():
        """random nonlinear system, motion sample by sample, derivatives by differences"""
        n = ri(1, 3)
        T, nt = ri(3, 7), rng.choice([48, 64, 96, 63, 90])
        M = np.diag([ri(1, 3) for _ in range(n)])
        if n > 1:
            P = unimodular(n)
            M = P.T @ M @ P
            if np.abs(M).max() > 9:
                return False
        K = np.array([ints(n, 1) for _ in range(n)]).reshape(n, n)
        K = K @ K.T + np.eye(n, dtype=int) * ri(0, 3) + np.array([ints(n, 1) for _ in range(n)]).reshape(n, n) * (rng.random() < 0.3)
        C = np.array([ints(n, 1) for _ in range(n)]).reshape(n, n)
        if rng.random() < 0.6:
            C = C @ C.T
        forces = [make_force(n) for _ in range(rng.choice([0, 1, 1, 2, 3]))]
        Fc, Fs = ints(n, 2), ints(n, 2)
        S = dict(n=n, M=M.tolist(), C=C.tolist(), K=K.tolist(), forces=[d for d, _ in forces], Fc=Fc, Fs=Fs, T=T, nt=nt)
        vs = VibrationSystem(M.astype(float), K.astype(float), C.astype(float))
        for _, f in forces:
            vs.add_nl_force(f)
        w = 2 * math.pi / T
        x0 = [v * 250 for v in ints(2 * n, 4)]
        Uw = np.hstack((np.array(x0) / UN, w))
        Fl = np.array(Fc + Fs, dtype=float)
        # admissible sizes: look at the motion of a plain integration of the same data
        from scipy.integrate import solve_ivp
        def rhs(t, y):
            u, v = y[:n], y[n:]
            f = C @ v + K @ u
            for d, _ in forces:
                x = np.array(d['Q']) @ u
                loc = [(d['a'][j] * (x[j] ** 3 if d['kind'] == 'cubic' else x[j] if d['kind'] == 'lin' else
                                     x[j] * x[(j + 1) % len(x)] if d['kind'] == 'quad' else
                                     max(x[j] - d['d2'][j] / 2, 0)) - (d['N'][j] if d['kind'] == 'uni' else 0)) for j in range(len(x))]
                f = f + np.array(d['T']) @ np.array(loc)
            return np.hstack((v, np.linalg.solve(M.astype(float), np.array(Fc) * math.cos(w * t) + np.array(Fs) * math.sin(w * t) - f)))
        with np.errstate(all='ignore'):
            try:
                y = solve_ivp(rhs, (0, T), Uw[:-1], rtol=1e-5, atol=1e-6, max_step=T / 20, t_eval=np.linspace(0, T, nt + 1))
            except Exception:
                return False
        if y.status != 0 or not np.all(np.isfinite(y.y)):
            return False
        ub = max([np.abs(np.array(d['Q']) @ y.y[:n]).max() for d, _ in forces] + [np.abs(y.y[:n]).max()])
        acc = max(np.abs(rhs(t, v)[n:]).max() for t, v in zip(y.t, y.y.T))
        if ub > 4 or np.abs(y.y).max() > 15 or acc > 40:
            return False
        uni = any(d['kind'] == 'uni' for d, _ in forces)
        # rounding of samples and forces, quadrature
        size = float(np.abs(K).sum(axis=1).max() + np.abs(C).sum(axis=1).max()) + 6 * len(forces)
        tol = int(6 + 0.25 * T * size + (acc * (T / nt) ** 2 * 40 if uni else 2) + acc * 0.3)
        # (the quadrature of the samples has to resolve the motion)
        a = np.array([rhs(t, v)[n:] for t, v in zip(y.t, y.y.T)]).T
        for s, ds, lim in ((y.y[:n], y.y[n:], 2.0), (M @ y.y[n:], M @ a, tol / 2)):
            w2 = np.cumsum(ds[:, 0:-2:2] + 4 * ds[:, 1:-1:2] + ds[:, 2::2], axis=1) * T / nt / 3
            if np.abs(s[:, 2::2] - s[:, :1] - w2).max() * UN > lim and not (uni and lim != 2.0):
                return False
        key = ['motion', S, x0]
        rec.begin(key)
        A, B = Uw.copy(), Fl.copy()
        r, ex = guard(vs.shooting_res, A, B, Nt=nt, return_aux=True)
        if ex:
            return exc(ex) or True
        R, J, dw, (mono, yt, vt, _) = r
        ok = np.shape(yt) == (n, nt + 1) and np.shape(vt) == (n, nt + 1)
        fin = np.hstack((yt[:, -1], vt[:, -1])) if ok else np.zeros(2 * n)
        rec.emit(op='run', S=S, x0=x0, R=FV(R, 1e-6), fin=FV(fin, 1e-6), tol=tol,
                 argchanged=not (np.array_equal(A, Uw) and np.array_equal(B, Fl)))
        for i in range(np.shape(yt)[1]):
            rec.emit(op='pt', i=i, u=FV(yt[:, i], 1 / UN), v=FV(vt[:, i], 1 / UN))
        rec.emit(op='end')
        # derivatives
        if not uni and np.abs(mono).max() < 200:
            # (with derivatives only, without the time series)
            r2, ex = guard(vs.shooting_res, Uw.copy(), Fl.copy(), Nt=nt)
            if ex or len(r2) != 3:
                return exc(ex or 'length') or True
            for k in range(2):
                d = np.array(ints(2 * n, 1) + [0], dtype=float) if k == 0 else np.array([0.0] * 2 * n + [1.0])
                e = 2e-4
                p, ex = guard(vs.shooting_res, Uw + e * d, Fl.copy(), Nt=nt)
                q, ex2 = guard(vs.shooting_res, Uw - e * d, Fl.copy(), Nt=nt)
                if ex or ex2:
                    return exc(ex or ex2) or True
                fd = (p[0] - q[0]) / (2 * e)
                if np.abs(fd).max() > 1000:
                    continue
                Jd = np.asarray(r2[1]) @ d[:-1] + np.asarray(r2[2]) * d[-1]
                rec.emit(op='grad', freq=k == 1, fd=FV(fd, 1e-4), Jd=FV(Jd, 1e-4))
        return True

    def exact():
        n = ri(1, 3)
        P = unimodular(n)
        Pi = np.round(np.linalg.inv(P)).astype(int)
        w = rng.choice([4, 2, 4, 8, 1])
        p = [ri(1, 5) for _ in range(n)]
        if w < 4:
            p = [4 // w * rng.choice([1, 2] if w == 2 else [1]) for _ in range(n)]
        wn = [k * w // 4 for k in p]
        M = Pi.T @ Pi
        K = Pi.T @ np.diag([k * k for k in wn]) @ Pi
        xp, fc, fs = [], [], []
        for k in range(n):
            if wn[k] == w:
                a, b = 0, 0
            else:
                a, b = ri(-2, 2), ri(-2, 2) * (1 if w % wn[k] == 0 else wn[k])
            # response a cos + b' sin with b' w / wn = the second coordinate
            if (b * wn[k]) % w:
                b = 0
            xp.append([a, b])
            fc.append((wn[k] ** 2 - w * w) * a)
            fs.append((wn[k] ** 2 - w * w) * b * wn[k] // w)
        Fc, Fs = Pi.T @ np.array(fc), Pi.T @ np.array(fs)
        q, d = [[ri(-2, 2), ri(-2, 2)] for _ in range(n)], [[ri(-1, 1), ri(-1, 1)] for _ in range(n)]
        phys = lambda z: np.hstack((P @ np.array([v[0] for v in z]), P @ np.array([wn[k] * z[k][1] for k in range(n)])))
        vs = VibrationSystem(M.astype(float), K.astype(float))
        split = rng.random() < 0.4
        if split:
            # part of the stiffness as nonlinear force objects
            G = np.array([ints(n, 1) for _ in range(n)]).reshape(n, n)
            vs = VibrationSystem(M.astype(float), (K - 3 * G).astype(float))
            vs.add_nl_force(GenPolyForce(np.eye(n), G.astype(float), 2 * np.eye(n), np.eye(n)))
            vs.add_nl_force(GenPolyForce(np.eye(n), G.astype(float), np.eye(n), np.eye(n)))
        nt = rng.choice([128, 160, 256])
        key = ['exact', P.tolist(), p, w, q, xp, split, nt]
        rec.begin(key)
        Uw = np.hstack((phys(q), w)).astype(float)
        r, ex = guard(vs.shooting_res, Uw, np.hstack((Fc, Fs)).astype(float), Nt=nt, return_aux=True)
        if ex:
            return exc(ex)
        D = phys(d).astype(float)
        amp = np.abs(P).sum() * max(wn + [1]) * (np.abs(np.array(q)).max() + np.abs(np.array(xp)).max() + 1)
        rec.emit(op='exact', Phi=P.tolist(), p=p, wn=wn, q=q, xp=xp, d=d, R=FV(r[0], 1e-3), Jd=FV(np.asarray(r[1]) @ D, 1e-3),
                 Md=FV(np.asarray(r[3][0]) @ D, 1e-3), tol=int(3 + amp * 0.2))

    def stability():
        n = ri(1, 3)
        P = unimodular(n)
        Pi = np.round(np.linalg.inv(P)).astype(int)
        w0 = rng.choice([1.0, 2.0, 1.5, rng.uniform(0.5, 3), rng.uniform(0.5, 3)])
        dec = [rng.choice([-1, 0, 1, 1, 1, 2, 3]) for _ in range(n)]
        c = [w0 * math.log(2) / math.pi * k for k in dec]
        # underdamped, at different frequencies
        om = [w0 * rng.uniform(1.2, 2.6) for _ in range(n)]
        om = [max(o, abs(k)) for o, k in zip(om, c)]
        M, C, K = Pi.T @ Pi, Pi.T @ np.diag(c) @ Pi, Pi.T @ np.diag([o * o for o in om]) @ Pi
        vs = VibrationSystem(M.astype(float), K, C)
        cubic = rng.random() < 0.6
        if cubic:
            vs.add_nl_force(CubicForce(np.eye(n), np.eye(n), np.array([1.5])))
        rows = ri(1, 4)
        ks = [ri(1, 2) for _ in range(rows)]          # periods in units of the first
        X = np.zeros((rows, 2 * n + 1))
        for i, k in enumerate(ks):
            if not cubic:
                X[i, :-1] = ints(2 * n, 3)
            X[i, -1] = w0 / k
        Fl = np.zeros(2 * n) if cubic else np.array(ints(2 * n, 3), dtype=float)
        nt = rng.choice([128, 200, ri(60, 250), ri(60, 250)])
        rec.begin(['stability', P.tolist(), w0, dec, om, ks, cubic, X.tolist(), Fl.tolist(), nt])
        A = X.copy()
        r, ex = guard(post.time_stability, vs, A, Fl.copy(), Nt=nt)
        if ex:
            return exc(ex)
        yt, vt, st, rho = r
        if np.shape(yt) != (n, nt + 1, rows) or np.shape(vt) != np.shape(yt) or len(st) != rows or len(rho) != rows:
            return exc('shape')
        for i, k in enumerate(ks):
            rec.emit(op='stab', decay=[k * v for v in dec], rho=F(rho[i], 1e-4), stable=bool(st[i]))
            s, ex = guard(vs.shooting_res, X[i].copy(), Fl.copy(), Nt=nt, return_aux=True)
            if ex:
                return exc(ex)
            j = sorted(rng.sample(range(nt + 1), 6))
            rec.emit(op='series', a=FV(np.vstack((yt[:, j, i], vt[:, j, i])), 1e-5),
                     b=FV(np.vstack((s[3][1][:, j], s[3][2][:, j])), 1e-5))

    def jury():
        T = ri(3, 7)
        m, k, c = ri(1, 3), rng.choice([-1, 1, 2, 3, 4]), rng.choice([-1, 0, 1, 1, 2]) / 4
        vs = VibrationSystem(np.array([[float(m)]]), np.array([[float(k)]]), np.array([[c]]))
        vs.add_nl_force(CubicForce(np.eye(1), np.eye(1), np.array([rng.choice([1.0, 2.0])])))
        if rng.random() < 0.4:
            vs.add_nl_force(GenPolyForce(np.eye(1), np.eye(1), np.array([[float(rng.choice([-1, 1, -2]))]]), np.array([[rng.choice([1.0, 2.0])]])))
        rows = ri(1, 3)
        X = np.array([[ri(-6, 6) / 4, ri(-6, 6) / 4, 2 * math.pi / T] for _ in range(rows)])
        Fl = np.array([ri(-2, 2), ri(-2, 2)], dtype=float)
        r, ex = guard(post.time_stability, vs, X.copy(), Fl, Nt=128)
        mm = []
        if not ex:
            for x in X:
                s, ex2 = guard(vs.shooting_res, x.copy(), Fl, Nt=128, return_aux=True)
                if ex2:
                    ex = ex2
                    break
                mm.append(np.asarray(s[3][0]))
            if not ex and max(np.abs(a).max() for a in mm) > 8:
                return
        rec.begin(['jury', m, k, c, [[type(f).__name__] for f in vs.nonlinear_forces], X.tolist(), Fl.tolist()])
        if ex:
            return exc(ex)
        for i in range(rows):
            rec.emit(op='jury', mm=FV(mm[i], 1e-3), rho=F(r[3][i], 1e-3), stable=bool(r[2][i]))

    part = extra.get('PART')
    def refused():
        """Forces with memory cannot be integrated as functions of the displacement."""
        from tmdsimpy.nlforces.jenkins_element import JenkinsForce
        from tmdsimpy.nlforces.vector_jenkins import VectorJenkins
        n = ri(1, 3)
        fs = [make_force(n) for _ in range(ri(0, 2))]
        L = np.zeros((1, n))
        L[0, ri(0, n - 1)] = 1.0
        at = ri(0, len(fs))
        fs.insert(at, ({'kind': 'memory'}, rng.choice([JenkinsForce, VectorJenkins])(L, L.T, ri(1, 3), ri(1, 3))))
        vs = VibrationSystem(np.eye(n), np.eye(n) * 2.0, C=0.1 * np.eye(n))
        for _, f in fs:
            vs.add_nl_force(f)
        vs.init_force_history()
        rec.begin(['refused', n, [d for d, _ in fs]])
        r, ex = guard(vs.shooting_res, np.hstack((np.ones(2 * n), 1.0)), np.ones(2 * n), Nt=16)
        rec.emit(op='refuse', ok=ex is not None)

    todo, done = (60 if quick else 700), 0
    while part in (None, 'motion') and done < todo:
        done += bool(motion())
    if part in (None, 'exact'):
        for _ in range(80 if quick else 800):
            exact()
    if part in (None, 'stab'):
        for _ in range(60 if quick else 600):
            stability()
        for _ in range(12 if quick else 60):
            refused()
        for _ in range(60 if quick else 600):
            jury()


driver_main(run)
