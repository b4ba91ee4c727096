"""Whole analyses: model, prestress, response curve, records, local forces, time domain (W01)."""
import os, shutil, tempfile
from vlib import *
import numpy as np

US, WSC = 1e-5, 1e-4


def run(rec, tier, rng, extra):
    quick = tier == 'quick'
    part = extra.get('PART')
    from tmdsimpy.vibration_system import VibrationSystem
    from tmdsimpy.continuation import Continuation
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.jax.solvers import NonlinearSolverOMP
    from tmdsimpy.utils import harmonic as hu, continuation as cu
    from tmdsimpy.postprocess import harmonic as ph
    from tmdsimpy.nlforces.cubic_stiffness import CubicForce
    from tmdsimpy.nlforces.jenkins_element import JenkinsForce
    from tmdsimpy.nlforces.vector_jenkins import VectorJenkins
    from tmdsimpy.nlforces.cubic_damping import CubicDamping
    from tmdsimpy.nlforces.unilateral_spring import UnilateralSpring
    from tmdsimpy.nlforces.iwan4_element import Iwan4Force
    from tmdsimpy.nlforces.vector_iwan4 import VectorIwan4
    from tmdsimpy.postprocess import shooting as psh
    from tmdsimpy.roms import epmc as repmc
    from tmdsimpy.nlforces.quintic_stiffness import QuinticForce
    from tmdsimpy.nlforces.general_poly_stiffness import GenPolyForce
    from tmdsimpy.jax.nlforces.elastic_dry_fric_2d import ElasticDryFriction2D
    ri = rng.randint

    def spring_matrix(n):
        K = np.zeros((n, n), int)
        for i in range(n):
            K[i, i] += ri(1, 3) if i == 0 or rng.random() < 0.6 else 0
            if i:
                k = ri(1, 2)
                K[i, i] += k
                K[i - 1, i - 1] += k
                K[i, i - 1] -= k
                K[i - 1, i] -= k
        return K

    def make_force(n, kinds):
        kind = rng.choice(kinds)
        nl = 2 if kind == 'E2' else 1
        Q = np.zeros((nl, n), int)
        if kind == 'E2':
            a = ri(0, n - 2)
            Q[0, a], Q[1, a + 1] = 1, 1
        else:
            a = ri(0, n - 1)
            Q[0, a] = 1
            if rng.random() < 0.4 and n > 1:
                Q[0, (a + 1) % n] = -1
        T = Q.T.copy()
        if rng.random() < 0.25 and kind != 'E2':
            T = 2 * T
        Qf, Tf = Q.astype(float), T.astype(float)
        d = dict(kind=kind, Q=Q.tolist(), T=T.tolist(), k=ri(1, 2), kn=0, lim=0, mn=0, md=1)
        k = float(d['k'])
        if kind == 'cubic':
            return d, CubicForce(Qf, Tf, np.array([k]))
        if kind == 'quintic':
            return d, QuinticForce(Qf, Tf, np.array([k / 4]))
        if kind == 'poly':
            return d, GenPolyForce(Qf, Tf, np.array([[k / 2, k / 4]]), np.array([[2, ], [3, ]]))
        if kind == 'jenkins':
            d['lim'] = ri(2, 12)
            return d, rng.choice([JenkinsForce, VectorJenkins])(Qf, Tf, k, d['lim'] / 10)
        if kind == 'damp':
            return d, CubicDamping(Qf, Tf, np.array([k / 10]))
        if kind == 'uni':
            return d, UnilateralSpring(Qf, Tf, np.array([k]), Npreload=np.array([0.25]), delta=np.array([0.5]))
        if kind == 'iwan':
            return d, rng.choice([Iwan4Force, VectorIwan4])(Qf, Tf, k, 0.6, -0.25, 1.0, Nsliders=20)
        d.update(kn=ri(2, 4), mn=ri(1, 3), md=5)
        return d, ElasticDryFriction2D(Qf, Tf, k, float(d['kn']), d['mn'] / 5, u0=0)

    def model(n, kinds, nf):
        M = np.diag([ri(1, 3) for _ in range(n)])
        if n > 1 and rng.random() < 0.3:
            M = 2 * M
            M[0, 1] = M[1, 0] = 1
        K = spring_matrix(n)
        a0, a1 = ri(1, 4), ri(1, 3)                       # hundredths
        C = a0 * M + a1 * K
        ab = [a0 / 100, a1 / 100]
        if rng.random() < 0.5:
            vs = VibrationSystem(M.astype(float), K.astype(float), ab=ab)
        else:
            vs = VibrationSystem(M.astype(float), K.astype(float))
            vs.set_new_C(ab=ab)
        fs = [make_force(n, kinds) for _ in range(nf)]
        for _, f in fs:
            vs.add_nl_force(f)
        return vs, dict(n=n, M=M.tolist(), C=C.tolist(), K=K.tolist(), forces=[d for d, _ in fs])

    own = [True]       # the solver of the last run is the package's (scipy gives up at rounding level: no answer required of it)

    def solver_of(smooth=True):
        r = rng.random()
        own[0] = not (r < 0.3 and smooth)
        # (the trust region of the scipy solver may collapse on a kink of the law, which it reports as success)
        if r < 0.3 and smooth:
            s = NonlinearSolver()
            plain = s.nsolve
            # (its default tolerance bounds the trust region only)
            s.nsolve = lambda fun, X0, verbose=True, xtol=None: plain(fun, X0, verbose=verbose, xtol=1e-10)
            return s, 'hybr'
        cfg = dict(max_steps=30, verbose=False, xtol=1e-9)
        if r < 0.5:
            cfg.update(reform_freq=rng.choice([2, 3]))
        elif r < 0.7:
            cfg.update(line_search_iters=rng.choice([2, 4]))
        elif r < 0.85:
            cfg.update(stopping_tol=['rtol'], rtol=1e-8)
        else:
            cfg.update(stopping_tol=['xtol', 'rtol'], rtol=1e-9, accepting_tol=['rtol'])
        return NonlinearSolverOMP(config=cfg), cfg

    def lists(n):
        return rng.choice([[1], [0, 1], [1, 3], [0, 1, 2, 3], [1, 2, 3], [0, 1, 3, 5], [1, 2]])

    def linear_start(M, C, K, h, n, Fl, w):
        """Unknown coefficients of the linear system (starting point; any may be used)."""
        U = np.zeros(hu_n(h) * n)
        p = 0
        for k in h:
            if k == 0:
                U[:n] = np.linalg.solve(K, Fl[:n])
                p += n
                continue
            E = np.block([[K - (k * w) ** 2 * M, k * w * C], [-k * w * C, K - (k * w) ** 2 * M]])
            U[p:p + 2 * n] = np.linalg.solve(E, Fl[p:p + 2 * n])
            p += 2 * n
        return U

    def hu_n(h):
        return sum(1 if k == 0 else 2 for k in h)

    def case(i, prestress=False):
        n = 2 if prestress else ri(1, 3)
        kinds = ['E2'] if prestress else ['cubic', 'cubic', 'jenkins', 'jenkins', 'damp', 'uni', 'iwan', 'quintic', 'poly']
        nf = 1 if prestress else rng.choice([0, 0, 1, 1, 2, 2, 3])
        vs, S = model(n, kinds, nf)
        M, K, C = np.array(S['M'], float), np.array(S['K'], float), np.array(S['C'], float) / 100
        if prestress:
            vs.add_nl_force(make_force(n, ['cubic'])[1]) if False else None
        form = rng.choice(['frc', 'frc', 'dFl', 'amp', 'ampph', 'epmc', 'base'])
        if prestress:
            form = rng.choice(['frc', 'dFl'])
        if form == 'base' and n == 1:
            form = 'frc'
        h = [0, 1, 2, 3] if prestress else lists(n)
        mean = h[0] == 0
        R = hu_n(h)
        ha = np.array(h)
        Nt = 64
        Fl = np.zeros((R, n), int)                        # tenths
        h1 = 1 if mean else 0
        dyn = [[ri(-5, 5) for _ in range(n)] for _ in range(2)]
        if not any(dyn[0]):
            dyn[0][0] = 4
        if form == 'ampph' or form in ('amp', 'dFl') and rng.random() < 0.5:
            dyn[1] = [0] * n
        Fl[h1:h1 + 2] = dyn
        if mean:
            Fl[0] = [ri(-5, 5) for _ in range(n)]
        S.update(h=h, F=Fl.ravel().tolist(), base=[False] * n, ub=[0] * (R * n), recov=[0] * n, order=0, Fs=[0] * n)
        Flv = Fl.ravel() / 10.0
        recov = np.zeros(n)
        recov[ri(0, n - 1)] = 1
        S['recov'] = [int(v) for v in recov]
        S['order'] = order = ri(0, 2)
        solver, sdesc = solver_of(all(f['kind'] in ('cubic', 'quintic', 'poly', 'damp') for f in S['forces']))
        w0 = rng.choice([0.3, 0.5, 0.8])
        if form == 'epmc':
            wn2, V = np.linalg.eigh(np.linalg.solve(np.linalg.cholesky(M), np.linalg.solve(np.linalg.cholesky(M), K).T))
            V = np.linalg.solve(np.linalg.cholesky(M).T, V)
            mode = ri(0, n - 1)
            Fp = np.zeros((R, n), int)
            if mean:
                Fp[0] = Fl[0]
            at = int(np.argmax(np.abs(V[:, mode])))
            side = ri(0, 1)
            Fp[h1 + side, at] = ri(1, 9)
            S['F'] = Fp.ravel().tolist()
            Flv = Fp.ravel() / 10.0
        if form == 'base':
            nb = 1
            b = ri(0, n - 1)
            S['base'][b] = True
            ub = np.zeros((R, n), int)
            ub[h1:h1 + 2, b] = [ri(1, 4), ri(-3, 3)]
            S['ub'] = ub.ravel().tolist()
            S['F'] = [0] * (R * n)
            Flv = Flv * 0
        static = None
        if prestress:
            S['Fs'] = [0, ri(4, 12)]
            Fl[0] = S['Fs']
            S['F'] = Fl.ravel().tolist()
            Flv = Fl.ravel() / 10.0
        rec.begin(['flow', i, form, S, str(sdesc), w0], nontrivial=True, S=S)

        def exc(e):
            rec.emit(op='exc', exc=str(e))
        if prestress:
            Fs = np.array(S['Fs']) / 10.0
            vs.init_force_history()
            vs.set_prestress_mu()
            fun = lambda X, calc_grad=True: vs.static_res(X, Fs)
            r, e = guard(solver.nsolve, fun, np.linalg.solve(K, Fs), verbose=False)
            if e:
                return exc(e)
            static = np.asarray(r[0])
            rec.emit(op='static', u=FV(static, US))
            vs.reset_real_mu()
            if rng.random() < 0.7:
                vs.set_aft_initialize(static)
        # ---- residual function of the formulation, start and interval
        start = linear_start(M, C, K, h, n, Flv, w0)
        if static is not None:
            start[:n] = static
        kw = dict(h=ha, Nt=Nt)

        def call(f):
            return f
        lam0, lam1, ds = w0, w0 + rng.choice([0.3, 0.6, 1.2]), 0.1
        if form == 'frc':
            fun = lambda X, calc_grad=True: vs.hbm_res(X, Flv, ha, Nt=Nt, calc_grad=calc_grad)
            X0 = start
        elif form == 'dFl':
            lam0, lam1 = 1.0, rng.choice([0.2, 2.0, 3.0])
            fun = lambda X, calc_grad=True: vs.hbm_res_dFl(X, w0, Flv, ha, Nt=Nt, calc_grad=calc_grad)
            X0 = start
        elif form == 'amp':
            uc, us = recov @ start[h1 * n:(h1 + 1) * n], recov @ start[(h1 + 1) * n:(h1 + 2) * n]
            amp = round(w0 ** order * float(np.hypot(uc, us)), 3) + 0.05
            fun = lambda X, calc_grad=True: vs.hbm_amp_control_res(X, Flv, ha, recov, amp, order, Nt=Nt, calc_grad=calc_grad)
            X0 = np.hstack((start, 1.0))
        elif form == 'ampph':
            g = np.linalg.solve(K - w0 ** 2 * M + 1j * w0 * C, Flv[h1 * n:(h1 + 1) * n])
            z = recov @ g
            if abs(z) < 1e-3:
                return rec.emit(op='end', n=0, rows=0, same=True, lines=0, head=1, linear=False)
            amp = rng.choice([0.25, 0.5])
            s = amp / w0 ** order / z
            q = g * s
            # u(t) = Re(q e^{iwt}): cosine Re q, sine -Im q
            p = np.zeros((R, n))
            p[h1], p[h1 + 1] = q.real, -q.imag
            if mean:
                p[0] = start[:n]
            X0 = np.hstack((p.ravel(), s.real, -s.imag))
            byamp = rng.random() < 0.4
            if byamp:
                lam0, lam1 = amp, amp + rng.choice([0.3, 0.6])
                fun = lambda X, calc_grad=True: vs.hbm_amp_phase_control_dA_res(X, Flv, ha, recov, w0, order, Nt=Nt, calc_grad=calc_grad)
            else:
                fun = lambda X, calc_grad=True: vs.hbm_amp_phase_control_res(X, Flv, ha, recov, amp, order, Nt=Nt, calc_grad=calc_grad)
        elif form == 'epmc':
            p = np.zeros((R, n))
            p[h1 + (1 - side)] = V[:, mode]
            lam0 = -1.5
            lam1 = rng.choice([-0.5, 0.0])
            if mean:
                p[0] = start[:n]
            w_l = float(np.sqrt(wn2[mode]))
            X0 = np.hstack((p.ravel(), w_l, (np.array(S['C'])[0, 0] * 0 + V[:, mode] @ C @ V[:, mode])))
            fun = lambda X, calc_grad=True: vs.epmc_res(X, Flv, ha, Nt=Nt, calc_grad=calc_grad)
        else:
            flag = np.array(S['base'])
            Ub = ub[:, flag].ravel() / 10.0
            full = ub.ravel() / 10.0
            mask = np.kron(np.ones(R, bool), flag)
            rhs = np.zeros(R * n)
            U = np.zeros((R, n))
            fr = ~flag
            Z = (K - w0 ** 2 * M + 1j * w0 * C)
            zb = ub[h1] / 10.0 - 1j * ub[h1 + 1] / 10.0
            zf = np.linalg.solve(Z[np.ix_(fr, fr)], -(Z[np.ix_(fr, flag)] @ zb[flag]))
            U[h1, fr], U[h1 + 1, fr] = zf.real, -zf.imag
            X0 = U.ravel()[~mask]
            fun = lambda X, calc_grad=True: vs.hbm_base_res(X, Ub, flag, ha, Nt=Nt)
        N1 = X0.shape[0] + 1
        cfg = dict(MaxSteps=ri(6, 14), dsmax=rng.choice([0.2, 0.4]), dsmin=0.005, verbose=0, corrector=rng.choice(['Ortho', 'Pseudo']),
                   FracLam=rng.choice([0.5, 0.3, 0.8]), DynamicCtoP=False, TargetNfev=rng.choice([10, 20]))
        ckw = {}
        if rng.random() < 0.5:
            ckw['CtoP'] = np.array([rng.choice([0.5, 1.0, 2.0, 0.1]) for _ in range(N1)])
            ckw['CtoP'][-1] = 1.0
            cfg['DynamicCtoP'] = rng.random() < 0.5
            if rng.random() < 0.5:
                ckw['RPtoC'] = rng.choice([0.5, 2.0, 1.0 / 3])
        if rng.random() < 0.3:
            cfg['FracLamList'] = [0.1, 0.9]
        d = tempfile.mkdtemp(prefix='flow_')
        try:
            fn, fr_ = os.path.join(d, 'c.npz'), os.path.join(d, 'r.dat')
            calls = [lambda X, D: cu.continuation_save(X, D, fn)]
            calls.append((lambda X, D: cu.print_epmc_stats(X, D, fr_)) if form == 'epmc' else
                         (lambda X, D: cu.print_hbm_amp_stats(np.hstack((X[:-1], 0.0, X[-1])), D, fr_, ha, 0,
                                                                recov[~np.array(S['base'])], 1)))
            cfg['callback'] = lambda X, D: cu.combine_callback_funs(calls, X, D)
            ct = Continuation(solver, ds0=0.1, config=cfg, **ckw)
            entry = rng.choice([lam0, lam0 + 0.3, 0.0, -7.0])         # documented as ignored
            X, e = guard(ct.continuation, fun, np.hstack((X0, entry)), lam0, lam1)
            if e == 'AssertionError':                  # start not found: nothing reported
                X, e = None, None
            if e:
                if os.environ.get('TB'):
                    ct.continuation(fun, np.hstack((X0, entry)), lam0, lam1)
                return exc(e)
            npts = 0 if X is None else X.shape[0]
            pick = sorted(set([0, npts - 1] + [ri(0, npts - 1) for _ in range(2)])) if npts else []
            for k in range(npts):
                x = X[k]
                xs, xi, phi, amp_k = [], 0.0, [], 0.0
                w = x[-1]
                u = x[:R * n]
                if form == 'dFl':
                    w, xs = w0, [x[-1]]
                elif form == 'amp':
                    xs, amp_k = [x[-2]], amp
                elif form == 'ampph':
                    if byamp:
                        xs, w, amp_k = [x[-3], x[-2]], w0, x[-1]
                    else:
                        xs, amp_k = [x[-3], x[-2]], amp
                elif form == 'epmc':
                    a = 10.0 ** x[-1]
                    phi = u
                    u = u * a
                    if mean:
                        u[:n] = phi[:n]
                    w, xi = x[-3], x[-2]
                elif form == 'base':
                    full = np.zeros(R * n)
                    full[mask] = Ub
                    full[~mask] = x[:-1]
                    u = full
                if np.max(np.abs(u)) > 9 or not 0.01 < abs(w) < 4.4:      # outside of the fixed-point range
                    rec.emit(op='skip')
                    continue
                loc, e = guard(ph.local_harmonic_forces, vs, u.copy(), w, ha, Nt=Nt)
                if e:
                    return exc(e)
                if any(np.max(np.abs(t[2])) > 800 for t in loc) or any(abs(v) > 800 for v in list(xs) + [amp_k]):
                    rec.emit(op='skip')
                    continue
                rec.emit(op='pt', form=form, lam=F(x[-1], 1e-4), lam0=F(lam0, 1e-4),
                         p=dict(u=FV(u, US), w=F(w, WSC), w2=F(w * w, WSC), x=FV(xs, US), xi=F(xi, US), phi=FV(phi, US),
                                amp=F(amp_k, WSC), fh=[[FV(r, US) for r in np.asarray(t[2])] for t in loc]))
                if k in pick:
                    for j, t in enumerate(loc):
                        if S['forces'][j]['kind'] in ('cubic', 'jenkins', 'E2'):
                            rec.emit(op='law', i=j + 1, u=[FV(r, US) for r in np.asarray(t[1])], f=[FV(r, US) for r in np.asarray(t[3])])
                    if form == 'frc' and h[-1] >= 3 and all(f['kind'] in ('cubic', 'quintic') for f in S['forces']) and not Fl[0].any() * mean:
                        # (how far the reported point is from the exact one depends on the solver: one more Newton step)
                        r, e = guard(vs.hbm_res, np.hstack((u, w)), Flv, ha, Nt=128)
                        if e:
                            return exc(e)
                        u = u - np.linalg.solve(r[1], r[0])
                        B = u.reshape(R, n)
                        u0, v0, p = np.zeros(n), np.zeros(n), 0
                        for q in h:
                            u0 += B[p]
                            if q:
                                v0 += q * w * B[p + 1]
                            p += 2 if q else 1
                        r, e = guard(vs.shooting_res, np.hstack((u0, v0, w)), Flv[h1 * n:(h1 + 2) * n], Nt=128)
                        if e:
                            return exc(e)
                        rec.emit(op='shoot', R=FV(r[0], US), tail=F(np.max(np.abs(B[-2:])), US))
            finish(d, X, fn, fr_, N1, npts, nf == 0 and own[0])
            rec.notes['points'] = rec.notes.get('points', 0) + npts
            rec.notes['form_' + form] = rec.notes.get('form_' + form, 0) + npts
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def finish(d, X, calls_file, report, N1, npts, linear, head=1):
        fn, fr_ = calls_file, report
        rows = np.load(fn)['XlamP'] if os.path.exists(fn) else np.zeros((0, N1))
        lines = len(open(fr_).read().strip('\n').split('\n')) if os.path.exists(fr_) else 0
        rec.emit(op='end', n=npts, rows=rows.shape[0],
                 same=bool(np.array_equal(rows[:npts], X)) and bool(np.isnan(rows[npts:]).all()) if npts else True,
                 lines=lines, head=head, linear=linear)

    def follow(fun, x0, lam0, lam1, steps, reporter, ckw={}):
        """A run with records in a scratch folder; returns points, rows are compared by finish."""
        solver, sdesc = solver_of()
        d = tempfile.mkdtemp(prefix='flow_')
        fn, fr_ = os.path.join(d, 'c.npz'), os.path.join(d, 'r.dat')
        calls = [lambda X, D: cu.continuation_save(X, D, fn), lambda X, D: reporter(X, D, fr_)]
        cfg = dict(MaxSteps=steps, dsmax=0.4, dsmin=0.005, verbose=0, corrector=rng.choice(['Ortho', 'Pseudo']),
                   callback=lambda X, D: cu.combine_callback_funs(calls, X, D))
        X, e = guard(Continuation(solver, ds0=0.1, config=cfg, **ckw).continuation, fun, np.hstack((x0, rng.choice([lam0, lam0 + 0.3, 0.0, -7.0]))), lam0, lam1)
        return d, fn, fr_, X, e

    def blank(S, h, n, R):
        S.update(h=h, base=[False] * n, ub=[0] * (R * n), recov=[1] + [0] * (n - 1), order=0, Fs=[0] * n)

    def time_case(i):
        """Periodic solutions by shooting: their Fourier coefficients balance harmonic by harmonic."""
        n = ri(1, 2)
        vs, S = model(n, ['cubic', 'cubic', 'quintic'], ri(0, 2))
        M, K, C = np.array(S['M'], float), np.array(S['K'], float), np.array(S['C'], float) / 100
        h = rng.choice([[1], [0, 1, 2, 3], [1, 3]])
        R, h1 = hu_n(h), int(h[0] == 0)
        Fl = np.zeros((R, n), int)
        Fl[h1:h1 + 2] = [[ri(-4, 4) for _ in range(n)] for _ in range(2)]
        Fl[h1, 0] = Fl[h1, 0] or 3
        blank(S, h, n, R)
        S['F'] = Fl.ravel().tolist()
        w0 = rng.choice([0.4, 0.6, 0.9])
        Flv = Fl[h1:h1 + 2].ravel() / 10.0
        rec.begin(['time', i, S, w0], S=S)
        U = linear_start(M, C, K, [1], n, Flv, w0)
        x0 = np.hstack((U[:n], w0 * U[n:]))

        def fun(X, calc_grad=True):
            if not 0.05 < X[-1] < 10 or not np.max(np.abs(X)) < 20:          # outside: no motion to integrate
                return np.full(2 * n, np.nan), np.full((2 * n, 2 * n), np.nan), np.full(2 * n, np.nan)
            return vs.shooting_res(X, Flv, Nt=48)
        d, fn, fr_, X, e = follow(fun, x0, w0, w0 + 0.5, ri(3, 5), lambda X, D, f: cu.print_epmc_stats(np.hstack((X, 1.0, 1.0, 1.0)), D, f))
        try:
            if e == 'AssertionError':
                X, e = None, None
            if e:
                return rec.emit(op='exc', exc=str(e))
            npts = 0 if X is None else X.shape[0]
            if npts:
                r, e = guard(psh.time_stability, vs, X, Flv, Nt=48)
                if e:
                    return rec.emit(op='exc', exc=str(e))
            for k in range(npts):
                y, v, w = r[0][:, :-1, k].T, r[1][:, :-1, k].T, X[k, -1]
                u = hu.get_fourier_coeff(np.array(h), y)
                if np.max(np.abs(u)) > 9 or not 0.01 < abs(w) < 4.4:
                    rec.emit(op='skip')
                    continue
                fh = [hu.get_fourier_coeff(np.array(h), f.local_force_history(y @ f.Q.T, v @ f.Q.T)[0]) for f in vs.nonlinear_forces]
                rec.emit(op='pt', form='frc', lam=F(w, 1e-4), lam0=F(w0, 1e-4),
                         p=dict(u=FV(u, US), w=F(w, WSC), w2=F(w * w, WSC), x=[], xi=0, phi=[], amp=0, fh=[[FV(a, US) for a in t] for t in fh]))
            finish(d, X, fn, fr_, X.shape[1] if npts else 0, npts, not vs.nonlinear_forces and own[0])
            rec.notes['form_time'] = rec.notes.get('form_time', 0) + npts
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def super_case(i):
        """Superharmonic resonances followed over the force: balance and phase condition."""
        n = ri(1, 2)
        M, K = np.eye(n, dtype=int), np.eye(n, dtype=int)
        if n == 2:
            K = np.array([[1, -1], [-1, 5]]) + np.diag([1, 0])
        C = ri(2, 4) * M + K
        vs = VibrationSystem(M.astype(float), K.astype(float), C=C / 100.0)
        Q = np.eye(n, dtype=int)[:1]
        vs.add_nl_force(CubicForce(Q.astype(float), Q.T.astype(float), np.array([1.0])))
        h = rng.choice([[1, 3], [0, 1, 2, 3], [0, 1, 3], [1, 2, 3, 5]])
        ha = np.array(h)
        R, h1 = hu_n(h), int(h[0] == 0)
        S = dict(n=n, M=M.tolist(), C=C.tolist(), K=K.tolist(),
                 forces=[dict(kind='cubic', Q=Q.tolist(), T=Q.T.tolist(), k=1, kn=0, lim=0, mn=0, md=1)])
        blank(S, h, n, R)
        Fl = np.zeros((R, n), int)
        Fl[h1, 0] = ri(3, 6)
        if h1 and rng.random() < 0.6:
            Fl[0, 0] = rng.choice([-3, -1, 1, 2])           # static load, never scaled
        S['F'] = Fl.ravel().tolist()
        Flv = Fl.ravel() / 10.0
        rec.begin(['super', i, S], S=S)
        wn = float(np.sqrt(np.min(np.linalg.eigvalsh(K.astype(float)))))
        ws = np.linspace(0.25 * wn, 0.75 * wn, 60)
        x, prev, got, sl = linear_start(M * 1.0, C / 100.0, K * 1.0, h, n, Flv, ws[0]), None, None, NonlinearSolver()
        for w in ws:
            sol, e = guard(sl.nsolve, lambda X: vs.hbm_res(np.hstack((X, w)), Flv, ha, Nt=64)[:2], x, verbose=False)
            if e or not sol[3]['success']:
                break
            x = sol[0]
            g, e = guard(vs.vprnm_single_eqn, x, w, ha, 3, Nt=64)
            if e:
                return rec.emit(op='exc', exc=str(e))
            if prev is not None and prev * g[0] < 0 and abs(g[0] - prev) < 1.0:
                got = w
                break
            prev = g[0]
        if got is None:
            return rec.emit(op='end', n=0, rows=0, same=True, lines=0, head=1, linear=False)
        phase = rng.random() < 0.4
        if phase:
            recov = np.array(S['recov'], float)
            c1, s1 = x[h1 * n:(h1 + 1) * n], x[(h1 + 1) * n:(h1 + 2) * n]
            a, b = recov @ c1, recov @ s1
            lam0 = float(np.hypot(a, b))
            t0 = np.arctan2(b, a)
            xr = hu.rotate_subtract_phase(np.hstack((x, got)).reshape(1, -1), n, ha, np.array([t0]), 1)[0][:-1]
            fun = lambda X, calc_grad=True: vs.vprnm_amp_phase_res(X, Flv, ha, 3, recov, 0, Nt=64, calc_grad=calc_grad)
            x0 = np.hstack((xr, np.cos(t0), -np.sin(t0), got))
            rep = lambda X, D, f: cu.print_vprnm_amp_phase_stats(X, D, f, ha, 0, 0, [(recov, 1)])
        else:
            lam0 = 1.0
            fun = lambda X, calc_grad=True: vs.vprnm_res(X, ha, 3, Flv, Nt=64, calc_grad=calc_grad)
            x0 = np.hstack((x, got))
            rep = lambda X, D, f: cu.print_vprnm_stats(X, D, f, ha, 0, [(np.array(S['recov'], float), 1)])
        d, fn, fr_, X, e = follow(fun, x0, lam0, lam0 + 0.5, ri(3, 8), rep)
        try:
            if e == 'AssertionError':
                X, e = None, None
            if e:
                return rec.emit(op='exc', exc=str(e))
            npts = 0 if X is None else X.shape[0]
            for k in range(npts):
                x = X[k]
                u, w = x[:R * n], x[-2]
                if np.max(np.abs(u)) > 9 or not 0.01 < abs(w) < 4.4:
                    rec.emit(op='skip')
                    continue
                low = u.copy()
                at = hu_n([q for q in h if q < 3]) * n
                low[at:] = 0
                loc, e = guard(ph.local_harmonic_forces, vs, u.copy(), w, ha, Nt=64)
                lo2, e2 = guard(ph.local_harmonic_forces, vs, low, w, ha, Nt=64)
                if e or e2:
                    return rec.emit(op='exc', exc=str(e or e2))
                rec.emit(op='pt', form='vprnm3' if not phase else 'vphase3', lam=F(x[-1], 1e-4), lam0=F(lam0, 1e-4),
                         p=dict(u=FV(u, US), w=F(w, WSC), w2=F(w * w, WSC), x=FV(x[-4:-2] if phase else x[-1:], US), xi=0, phi=[],
                                amp=F(x[-1] if phase else 0.0, WSC), fh=[[FV(r, US) for r in np.asarray(t[2])] for t in loc]),
                         low=[[FV(r, US) for r in np.asarray(t[2])] for t in lo2])
            finish(d, X, fn, fr_, X.shape[1] if npts else 0, npts, False, head=2)
            rec.notes['form_super'] = rec.notes.get('form_super', 0) + npts
        finally:
            shutil.rmtree(d, ignore_errors=True)

    def rom_case(i):
        """Response of a linear model reconstructed from its computed mode curve: one mode is forced, so
        the reduced order response is the exact one and must satisfy the model's equations."""
        n = ri(1, 2)
        if n == 1:
            M, K, sg = np.array([[ri(1, 3)]]), np.array([[ri(1, 4)]]), 0
        else:
            a, b = ri(2, 4), ri(-1, 1) or 1
            M, K, sg = np.eye(2, dtype=int) * ri(1, 2), np.array([[a, -b], [-b, a]]), rng.choice([1, -1])
        a0, a1 = ri(1, 6), ri(0, 3)
        C = a0 * M + a1 * K
        vs = VibrationSystem(M.astype(float), K.astype(float), ab=[a0 / 100, a1 / 100])
        h = rng.choice([[1], [0, 1], [0, 1, 3], [1, 2]])
        ha = np.array(h)
        R, h1 = hu_n(h), int(h[0] == 0)
        S = dict(n=n, M=M.tolist(), C=C.tolist(), K=K.tolist(), forces=[])
        blank(S, h, n, R)
        shape = np.array([1] if n == 1 else [1, sg])
        Fl = np.zeros((R, n), int)
        Fl[h1], Fl[h1 + 1] = ri(1, 4) * shape, ri(-3, 3) * shape
        if h1:
            Fl[0] = [ri(-4, 4) for _ in range(n)]
        Fp = Fl.copy()
        Fp[h1:] = 0
        Fp[h1 + 1, 0] = ri(1, 9)
        S['F'] = Fp.ravel().tolist()
        S2 = dict(S, F=Fl.ravel().tolist())
        Fp = Fp / 10.0
        rec.begin(['mode', i, S], S=S)
        phi = shape / np.sqrt(shape @ M @ shape)
        w1 = float(np.sqrt(phi @ K @ phi))
        p = np.zeros((R, n))
        p[h1] = phi
        if h1:
            p[0] = np.linalg.solve(K, Fp[0])
        off = rng.choice([0.0, 0.02])
        x0 = np.hstack((p.ravel(), w1 * (1 + off), float(phi @ C @ phi) / 100 * (1 + off)))
        lam0 = rng.choice([-2.0, -1.0, -0.5])
        fun = lambda X, calc_grad=True: vs.epmc_res(X, Fp.ravel(), ha, Nt=32, calc_grad=calc_grad)
        d, fn, fr_, X, e = follow(fun, x0, lam0, lam0 + 1.0, ri(5, 9), lambda X, D, f: cu.print_epmc_stats(X, D, f))
        try:
            if e == 'AssertionError' and (off or not own[0]):               # start not found from a perturbed guess
                return
            if e:
                return rec.emit(op='exc', exc=str(e))
            npts = X.shape[0]
            for x in X:
                u = x[:R * n] * 10.0 ** x[-1]
                u[:h1 * n] = x[:h1 * n]
                rec.emit(op='pt', form='epmc', lam=F(x[-1], 1e-4), lam0=F(lam0, 1e-4),
                         p=dict(u=FV(u, US), w=F(x[-3], WSC), w2=F(x[-3] ** 2, WSC), x=[], xi=F(x[-2], US), phi=FV(x[:R * n], US), amp=0, fh=[]))
            finish(d, X, fn, fr_, X.shape[1], npts, own[0])
            rec.begin(['rom', i, S2], S=S2)
            out, e = guard(repmc.constant_force, X, n, ha, Fl=Fl.ravel() / 10.0)
            if e:
                return rec.emit(op='exc', exc=str(e))
            for u in out[0]:
                w = u[-1]
                if np.max(np.abs(u[:-1])) > 9 or not 0.01 < w < 4.4:
                    continue
                rec.emit(op='rom', form='frc', p=dict(u=FV(u[:-1], US), w=F(w, WSC), w2=F(w * w, WSC), x=[], xi=0, phi=[], amp=0, fh=[]))
                rec.notes['rom_points'] = rec.notes.get('rom_points', 0) + 1
        finally:
            shutil.rmtree(d, ignore_errors=True)

    if part in (None, 'rom'):
        for i in range(10 if quick else 100):
            rom_case(i)
    if part in (None, 'time'):
        for i in range(7 if quick else 80):
            time_case(i)
    if part in (None, 'super'):
        for i in range(12 if quick else 120):
            super_case(i)
    if part in (None, 'np'):
        for i in range(60 if quick else 600):
            case(i)
    if part in (None, 'E2'):
        for i in range(10 if quick else 80):
            case(i, prestress=True)


driver_main(run)
