"""Residual families (R01, R02).  FOCUS: R01, R02."""
import math
from vlib import *
import numpy as np

LN10 = math.log(10.0)


class Law:
    """Force with an integer quadratic law in the harmonic coefficients (and statically)."""

    def __init__(self, d, npmean):
        self.d = d

    def nl_force_type(self):
        return 0

    def _poly(self, U):
        f = np.zeros(len(U))
        J = np.zeros((len(U), len(U)))
        for i, j, v in self.d['lin']:
            if i <= len(U) and j <= len(U):
                f[i - 1] += v * U[j - 1]
                J[i - 1, j - 1] += v
        for i, j, v in self.d['quad']:
            if i <= len(U) and j <= len(U):
                f[i - 1] += v * U[j - 1] ** 2
                J[i - 1, j - 1] += 2 * v * U[j - 1]
        return f, J

    def force(self, X, update_hist=False):
        assert not update_hist
        return self._poly(X)

    def aft(self, U, w, h, Nt=128, tol=1e-7, calc_grad=True, **kw):
        f, J = self._poly(U)
        d = self.d
        b = np.array(d['b'][:len(U)], dtype=float)
        f = f + (w + d['cn'] * Nt + d['ct'] * round(-math.log10(tol)) + d['ch'] * int(np.sum(h))) * b
        if not calc_grad:
            return (f,)
        return f, J, b


HS = [[0, 1], [0, 1, 2], [0, 1, 3], [1], [1, 2], [1, 3], [1, 3, 5], [1, 2, 3], [0, 1, 2, 3]]


def run(rec, tier, rng, extra):
    focus = extra['FOCUS']
    quick = tier == 'quick'
    from tmdsimpy.vibration_system import VibrationSystem
    ri = rng.randint
    ints = lambda n, a: [ri(-a, a) for _ in range(n)]

    def sym(n, a):
        A = np.array([ints(n, a) for _ in range(n)]).reshape(n, n)
        return np.triu(A) + np.triu(A, 1).T

    def ncomp(h):
        return sum(1 if k == 0 else 2 for k in h)

    def restrict(S0, N):
        return dict(S0, forces=[dict(f, lin=[t for t in f['lin'] if max(t[:2]) <= N],
                                     quad=[t for t in f['quad'] if max(t[:2]) <= N]) for f in S0['forces']])

    def system(amax=2, gen=True):
        n = ri(1, 3)
        N = 7 * n
        forces = []
        for _ in range(rng.choice([0, 1, 1, 2, 3])):
            low = lambda: ri(1, rng.choice([n, 3 * n, N]))
            tri = lambda k: [[low(), low(), rng.choice([-2, -1, 1, 2])] for _ in range(k)]
            forces.append(dict(lin=tri(ri(0, 3 * n) + 2 * ri(0, n)), quad=tri(ri(0, 6)), b=ints(N, 2), cn=rng.choice([0, 1, -1]),
                               ct=ri(-1, 1), ch=ri(-1, 1)))
        C = sym(n, amax) if rng.random() < 0.7 else np.array([ints(n, amax) for _ in range(n)]).reshape(n, n)
        M0, K0 = sym(n, amax), sym(n, 4)
        if gen:
            M0, K0 = (np.array([ints(n, a) for _ in range(n)]).reshape(n, n) for a in (amax, 4))
        S = dict(n=n, M=M0.tolist(), C=C.tolist(), K=K0.tolist(), forces=forces)
        M, Cf, K = (np.array(S[k], dtype=float) for k in 'MCK')
        if rng.random() < 0.2:
            a, b = ri(0, 2), ri(0, 2)
            S['C'] = (a * np.array(S['M']) + b * np.array(S['K'])).tolist()
            vs = VibrationSystem(M, K, ab=[a, b])
        elif rng.random() < 0.15:
            S['C'] = (0 * np.array(S['M'])).tolist()
            vs = VibrationSystem(M, K)
        else:
            vs = VibrationSystem(M, K, C=Cf)
        for f in forces:
            vs.add_nl_force(Law(f, n))
        return S, vs

    def nonzero(n, a):
        while True:
            v = ints(n, a)
            if any(v) or a == 0:
                return v

    def law(S, h, U, w, q):
        f = np.zeros(len(U))
        for d in S['forces']:
            f += Law(d, 0).aft(np.array(U, dtype=float), w, np.array(h), q[0], 10.0 ** (-q[1]))[0]
        return f

    pool = []

    def case(kind):
        h = rng.choice(HS + ([[0], [0, 2], [2, 3], [0, 3], [2]] if kind in ('hbm', 'dFl', 'base') else []))
        if kind in ('vprnm', 'vap', 'cond'):
            h = rng.choice([x for x in HS if len([k for k in x if k > 0]) > 1])
        # (a system is evaluated several times before the next one is made)
        if not pool or pool[2] <= 0 or (kind == 'epmc' and pool[3]):
            gen = kind != 'epmc' and rng.random() < 0.3
            pool[:] = [*system(gen=gen), ri(1, 5), gen]
        pool[2] -= 1
        S0, vs = pool[:2]
        n = S0['n']
        if n * ncomp(h) > 15:
            return False
        if rng.random() < 0.25:
            if rng.random() < 0.5:
                C = np.array([ints(n, 2) for _ in range(n)]).reshape(n, n)
                vs.set_new_C(C=C.astype(float))
            else:
                a, b = ri(0, 2), ri(0, 2)
                C = a * np.array(S0['M']) + b * np.array(S0['K'])
                vs.set_new_C(ab=[a, b])
            S0['C'] = C.tolist()
        N = n * (1 if kind == 'static' else ncomp(h))
        S = restrict(S0, N)
        m0 = n if h[0] == 0 else 0
        U = ints(N, 3)
        w = ri(1, 4) * (-1 if rng.random() < 0.08 else 1)
        Fl = ints(N, 4)
        q, kw = [128, 7], {}
        if rng.random() < 0.6:
            q[0] = rng.choice([16, 64, 256])
            kw['Nt'] = q[0]
        if rng.random() < 0.6:
            q[1] = rng.choice([5, 9])
            kw['aft_tol'] = 10.0 ** (-q[1])
        p = dict(Fl=Fl, q=q)
        H = np.array(h)
        fa = lambda v: np.array(v, dtype=float)
        args, cond, asked = None, None, kind not in ('static', 'base')
        scale_last = 1.0
        if kind == 'hbm':
            x = U + [w]
            fn, args = vs.hbm_res, [fa(x), fa(Fl), H]
        elif kind == 'dFl':
            x = U + [ri(-3, 3)]
            p['w'] = w
            fn, args = vs.hbm_res_dFl, [fa(x), float(w), fa(Fl), H]
        elif kind == 'static':
            x = U
            p['Fl'] = Fl[:n]
            kw = {}
            fn, args = vs.static_res, [fa(x), fa(Fl[:n])]
        elif kind == 'base':
            while True:
                flag = [rng.random() < 0.5 for _ in range(n)]
                if not all(flag):
                    break
            nb = sum(flag)
            p['flag'] = flag
            p['Ub'] = ints(nb * ncomp(h), 3)
            x = ints((n - nb) * ncomp(h), 3) + [w]
            fn, args = vs.hbm_base_res, [fa(x), fa(p['Ub']), np.array(flag), H]
        elif kind in ('amp', 'ampphase', 'dA', 'vap'):
            p['recov'] = ints(n, 2)
            p['order'] = ri(0, 2)
            p['amp'] = ri(0, 4)
            if kind == 'amp':
                x = U + [ri(-3, 3), w]
                fn, args = vs.hbm_amp_control_res, [fa(x), fa(Fl), H, fa(p['recov']), float(p['amp']), p['order']]
            elif kind == 'ampphase':
                x = U + ints(2, 3) + [w]
                fn, args = vs.hbm_amp_phase_control_res, [fa(x), fa(Fl), H, fa(p['recov']), float(p['amp']), p['order']]
            elif kind == 'dA':
                x = U + ints(2, 3) + [ri(0, 4)]
                p['w'] = w
                fn, args = vs.hbm_amp_phase_control_dA_res, [fa(x), fa(Fl), H, fa(p['recov']), float(w), p['order']]
            else:
                x = U + ints(2, 3) + [w, ri(0, 4)]
        elif kind == 'epmc':
            A = rng.choice([1, 2, 3, 5, 10])
            U = ints(N, 2)
            x = U + [w, ri(-2, 2), A]
            y = fa(x)
            y[-1] = math.log10(A)
            scale_last = LN10
            fn, args = vs.epmc_res, [y, fa(Fl), H]
        if kind in ('vprnm', 'vap', 'cond'):
            rhi = rng.choice([k for k in h if k > 1])
            p['rhi'] = rhi
            nf = rng.choice([0, 0, 1, 1, 2])
            p['filter'] = [nonzero(n, 2) for _ in range(nf)]
            p['scale'] = rng.choice([1, 1, 2, 3, -1]) if kind != 'cond' else 1
            if nf:
                kw['superharmonic_filter'] = fa(p['filter'][0]) if nf == 1 and rng.random() < 0.5 else fa(p['filter'])
            if kind != 'cond' and (p['scale'] != 1 or rng.random() < 0.5):
                kw['constraint_scale'] = float(p['scale'])
            if kind == 'vprnm':
                x = U + [w, ri(-3, 3)]
                fn, args = vs.vprnm_res, [fa(x), H, rhi, fa(Fl)]
            elif kind == 'vap':
                fn, args = vs.vprnm_amp_phase_res, [fa(x), fa(Fl), H, rhi, fa(p['recov']), p['order']]
            else:
                x = U + [w]
                extra_entries = rng.choice([0, 0, 2])
                fn, args = vs.vprnm_single_eqn, [fa(U + [7] * extra_entries), float(w), H, rhi]
            o = n * ncomp([k for k in h if k < rhi])
            U0 = [u if i < o else 0 for i, u in enumerate(U)]
            blk = -law(S, h, U0, w, q)[o:o + 2 * n]
            X = np.array(U[o:o + 2 * n])
            if nf:
                P = np.array(p['filter'])
                blk = np.hstack((P @ blk[:n], P @ blk[n:]))
                PM = P @ np.array(S['M'])
                X = np.hstack((PM @ X[:n], PM @ X[n:]))
            nf2, nx2 = int(round(blk @ blk)), int(round(X @ X))
            if nf2 == 0 or nx2 == 0 or nf2 * nx2 > 10 ** 6:
                return False
            # (bound of the scaled derivative)
            J = sum((np.abs(Law(d, 0)._poly(np.array(U0, dtype=float))[1]) for d in S['forces']), np.zeros((N, N)))
            dF = max(J[o:o + 2 * n].sum(axis=0).max(), sum(np.abs(d['b'][:N]).sum() for d in S['forces']))
            dX = 1
            if nf:
                dF *= np.abs(P).sum() * 1.0
                dX = np.abs(PM).sum()
            if 2 * (dF * math.sqrt(nx2) + dX * math.sqrt(nf2)) * nf2 * nx2 * abs(p['scale']) > 8e7:
                return False
            cond = (nf2, nx2)
        key = [kind, h, S, p, x]
        rec.begin(key)
        before = [np.copy(a) if isinstance(a, np.ndarray) else a for a in args]
        if rng.random() < 0.35:
            # an earlier evaluation with other contents of the same arrays
            mine = [a for a in list(args) + list(kw.values()) if isinstance(a, np.ndarray) and a.dtype.kind == 'f']
            was = [np.copy(a) for a in mine]
            for a in mine:
                if rng.random() < 0.6:
                    a *= rng.choice([2.0, -1.0, 3.0])
            guard(fn, *args, **kw)
            for a, b in zip(mine, was):
                a[...] = b
        r, ex = guard(fn, *args, **kw)
        if ex:
            rec.emit(op='exc', prop=focus, exc=ex)
            return True
        first = [np.copy(v) for v in r]
        rn = None
        if asked:
            rn, ex = guard(fn, *args, calc_grad=False, **kw)
            if ex:
                rec.emit(op='exc', prop=focus, exc=ex + '-without-derivatives')
                return True
        changed = not all(np.array_equal(a, b) for a, b in zip(args, before)) \
            or not all(np.array_equal(a, b, equal_nan=True) for a, b in zip(r, first))
        ev = dict(op='cond' if kind == 'cond' else 'res', kind=kind, S=S, h=h, p=p, x=x, argchanged=changed)
        r = [np.asarray(v) for v in r]
        if kind == 'cond':
            R, Rn, D = np.atleast_1d(r[0]), np.atleast_1d(rn[0]), np.atleast_2d(r[1])
        else:
            R, Rn = r[0], rn[0] if asked else []
            D = np.asarray(r[1])
            if kind != 'static':
                D = np.hstack((D, np.asarray(r[2]).reshape(-1, 1) / scale_last))
        if cond:
            nf2, nx2 = cond
            a, b = math.sqrt(nf2 * nx2), (nf2 * nx2) ** 1.5
            ev.update(nf2=nf2, nx2=nx2, c=Q(R[-1], a, 1e-5), cn=Q(Rn[-1], a, 1e-5), cd=[Q(v, b, 1e-3) for v in D[-1]])
            R, Rn, D = R[:-1], Rn[:-1], D[:-1]
        if kind != 'cond':
            # (the columns, one per unknown and the parameter)
            ev.update(asked=asked, R=QV(R, 1, 1e-5), Rn=QV(Rn, 1, 1e-5), D=[QV(c, 1, 1e-5) for c in D.T])
        rec.emit(**ev)
        return True

    kinds = ('hbm', 'dFl', 'base', 'static') if focus == 'R01' else ('amp', 'ampphase', 'dA', 'epmc', 'vprnm', 'vap', 'cond')
    n1 = 150 if focus == 'R01' else 80
    todo = [k for k in kinds for _ in range(n1 if quick else 12 * n1)]
    rng.shuffle(todo)
    for kind in todo:
        for _ in range(200):
            if case(kind):
                break


driver_main(run)
