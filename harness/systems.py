"""Vibration systems: operation sequences (R03), post-processed local forces (P03).  FOCUS, PART (np, E2, E3, rc)."""
import json
from vlib import *
import numpy as np
import series as ser


class Lin:
    """Linear law gain * u + s with every kind of internal state; the capabilities are attributes."""

    def __init__(self, d, Q, T):
        self.el, self.Q, self.T = d, Q, T
        self.hist = d['hist']
        self.g = float(d['k'])
        self.s = np.zeros(Q.shape[0])
        self.start = None
        if d['pres']:
            self.set_prestress_mu = self._pre
            self.reset_real_mu = self._real
        if d['takes']:
            self.set_aft_initialize = self._take

    def nl_force_type(self):
        return 1 if self.hist else 0

    def _pre(self):
        self.g = float(self.el['kp'])

    def _real(self):
        self.g = float(self.el['k'])

    def _take(self, X):
        self.start = self.Q @ X

    def init_history(self):
        # (a memoryless force has no history to reset: it would show)
        self.s = self.s * 0.0 if self.hist else self.s + 100.0

    def force(self, X, update_hist=False):
        u = self.Q @ X
        f = self.g * u + self.s
        if update_hist:
            self.s = self.s + (u if self.hist else 100.0)
        return self.T @ f, self.T @ (self.g * np.eye(len(u))) @ self.Q

    def local_force_history(self, unlt, unltdot, h=None, cst=None, unlth0=None, max_repeats=2, atol=1e-10, rtol=1e-10):
        return (self.g * unlt + (0.0 if self.start is None else self.start),)

    def aft(self, U, w, h, Nt=128, tol=1e-7, calc_grad=True):
        nh = sum(1 if k == 0 else 2 for k in h)
        c = (self.g * self.Q @ U.reshape(nh, -1).T)
        if h[0] == 0 and self.start is not None:
            c[:, 0] += self.start
        F = (self.T @ c).T.reshape(-1)
        if not calc_grad:
            return (F,)
        return F, np.kron(np.eye(nh), self.T @ (self.g * np.eye(self.Q.shape[0])) @ self.Q), np.zeros_like(U)


def run(rec, tier, rng, extra):
    focus, part = extra['FOCUS'], extra['PART']
    quick = tier == 'quick'
    from tmdsimpy.vibration_system import VibrationSystem
    from tmdsimpy.nlforces.jenkins_element import JenkinsForce
    from tmdsimpy.nlforces.vector_jenkins import VectorJenkins
    from tmdsimpy.nlforces.iwan4_element import Iwan4Force
    from tmdsimpy.nlforces.vector_iwan4 import VectorIwan4
    from tmdsimpy.nlforces.cubic_stiffness import CubicForce
    from tmdsimpy.nlforces.quintic_stiffness import QuinticForce
    from tmdsimpy.nlforces.cubic_damping import CubicDamping
    from tmdsimpy.nlforces.unilateral_spring import UnilateralSpring
    from tmdsimpy.nlforces.general_poly_stiffness import GenPolyForce
    from tmdsimpy.solvers import NonlinearSolver
    from tmdsimpy.postprocess import harmonic as post
    if part in ('E2', 'E3', 'rc'):
        from tmdsimpy.jax.nlforces.elastic_dry_fric_2d import ElasticDryFriction2D as E2
        from tmdsimpy.jax.nlforces.elastic_dry_fric_3d import ElasticDryFriction3D as E3
        from tmdsimpy.jax.nlforces.roughcontact.rough_contact import RoughContactFriction as RC
        from tmdsimpy.jax.nlforces.jenkins_element import JenkinsForce as JJ
        from tmdsimpy.jax.nlforces.vector_jenkins import VectorJenkins as JVJ
    ri = rng.randint
    ints = lambda n, a: [ri(-a, a) for _ in range(n)]
    beh = json.load(open(extra['beh']))['systems'] if extra.get('beh') else []

    def maps(nl, n):
        Q = np.array([ints(n, 1) for _ in range(nl)]).reshape(nl, n)
        T = np.array([ints(nl, 2) for _ in range(n)]).reshape(n, nl)
        if rng.random() < 0.3:
            T = Q.T.copy()
        return Q, T

    def force(kind, n, lat, nops):
        """description and constructor"""
        nl = dict(E2=2, E3=3, J=1, VJ=1, I=1, VI=1, JJ=1, JVJ=1).get(kind) or ri(1, 2)
        Q, T = maps(nl, n)
        Qf, Tf = Q.astype(float), T.astype(float)
        d = dict(kind='fric', Q=Q.tolist(), T=T.tolist(), hist=True, pres=True, takes=False, mean=False, u0=[], name=kind)
        if kind in ('J', 'VJ'):
            kt, Fs = ri(1, 4), (2 * ri(0, 8) + 1) * lat
            d.update(mean=True, el=dict(tan=[dict(j=1, n=0)], nrm=[], kap=0, gap2=0, m=0, nl=1, sl=[dict(g=kt, lim=Fs, w=1)]))
            cls = JenkinsForce if kind == 'J' else VectorJenkins

            def new():
                return cls(Qf, Tf, float(kt), float(Fs))
            big = lambda u, v: (2 * Fs, 8 * kt * v)
        elif kind in ('JJ', 'JVJ'):
            # harmonic evaluation only; the vectorized one has no frictionless mode
            kt, Fs, u0 = ri(1, 4), (2 * ri(0, 8) + 1) * lat, rng.choice([0, 0, ri(-3, 3)])
            d.update(hist=False, pres=kind == 'JJ', u0=[u0],
                     el=dict(tan=[dict(j=1, n=0)], nrm=[], kap=0, gap2=0, m=0, nl=1, sl=[dict(g=kt, lim=Fs, w=1)]))
            new = lambda: (JJ if kind == 'JJ' else JVJ)(Qf, Tf, float(kt), float(Fs), **(dict(u0=float(u0)) if u0 else {}))
            big = lambda u, v: (2 * Fs, 8 * kt * v)
        elif kind in ('I', 'VI'):
            k, chi, (b1, b2) = ri(1, 2), rng.choice([0, 1]), rng.choice([(0, 1), (1, 1), (1, 2)])
            ph, P = [2 * i - 1 for i in range(1, k + 1)], 2 * k
            R = rng.choice([1, 3]) * lat
            ph, dl, P = [p * R for p in ph], [2 * R] * k, P * R
            W = [(chi + 1) * p ** chi * q * b2 for p, q in zip(ph, dl)] + [b1 * P ** (chi + 1)]
            g = int(np.gcd.reduce(W))
            W = [w // g for w in W]
            D = b1 / b2 + (chi + 1) / (chi + 2)
            Fs = D * b2 * P ** (chi + 2) / g
            kt = Fs * (1 + b1 / b2) / D / P
            d.update(mean=True, pres=False, el=dict(tan=[dict(j=1, n=0)], nrm=[], kap=0, gap2=0, m=0, nl=1,
                                                    sl=[dict(g=1, lim=p, w=w) for p, w in zip(ph + [P], W)]))
            cls = Iwan4Force if kind == 'I' else VectorIwan4
            new = lambda: cls(Qf, Tf, kt, Fs, chi, b1 / b2, Nsliders=k, alphasliders=1.0)
            big = lambda u, v: (2 * sum(w * p for w, p in zip(W, ph + [P])), 8 * sum(W) * v)
        elif kind in ('E2', 'E3'):
            kt, kap, m, gap2 = ri(1, 3), 4, ri(1, 3), rng.choice([-3, -1, 1, 3]) * lat
            tan = [dict(j=1, n=2)] if kind == 'E2' else [dict(j=1, n=3), dict(j=2, n=3)]
            z = rng.random()
            kw = {}
            u0 = [0] * nl
            if z < 0.3:
                u0, kw = [], dict(u0=None)
            elif z < 0.5:
                u0 = [ri(-3, 3)] * nl
                kw = dict(u0=float(u0[0]))
            elif z < 0.7:
                u0 = ints(nl, 3)
                kw = dict(u0=np.array(u0, dtype=float))
            d.update(mean=not u0, u0=u0, takes=True,
                     el=dict(tan=tan, nrm=[nl], kap=kap, gap2=gap2, m=m, nl=nl, sl=[dict(g=kt, lim=0, w=1)]))
            new = lambda: (E2 if kind == 'E2' else E3)(Qf, Tf, float(kt), 2.0 * kap, m / 4, meso_gap=gap2 / 2, **kw)
            big = lambda u, v: (2 * kap * (2 * u + 3 * lat), max(8 * kt * v, 2 * m * kap * v, 8 * kap * v) * 2)
        elif kind == 'lin':
            el = dict(nl=nl, k=ri(1, 3), kp=ri(-3, 0))
            d.update(kind='lin', hist=rng.random() < 0.6, pres=rng.random() < 0.6, takes=rng.random() < 0.7, el=el)
            c = dict(el, hist=d['hist'], pres=d['pres'], takes=d['takes'])
            new = lambda: Lin(c, Qf, Tf)
            big = lambda u, v: (6 * u + 60 * (1 + nops), 12 * v)
        else:
            d.update(kind='mem', hist=False, pres=False)
            if kind in ('cubic', 'quintic', 'damp'):
                a = ints(nl, 2)
                el = dict(kind=kind, nl=nl, a=a)
                cls = dict(cubic=CubicForce, quintic=QuinticForce, damp=CubicDamping)[kind]
                new = lambda: cls(Qf, Tf, np.array(a, dtype=float))
                p = 5 if kind == 'quintic' else 3
                big = lambda u, v: (4 * u ** p, 8 * p * u ** (p - 1) * v)
            elif kind == 'uni':
                a, Np, d2 = [ri(1, 3) for _ in range(nl)], ints(nl, 3), [rng.choice([-3, -1, 1, 3]) for _ in range(nl)]
                el = dict(kind=kind, nl=nl, a=a, N=Np, d2=d2)
                new = lambda: UnilateralSpring(Qf, Tf, np.array(a, dtype=float), Npreload=np.array(Np, dtype=float),
                                               delta=np.array(d2) / 2)
                big = lambda u, v: (3 * (2 * u + 3) + 6, 24 * v)
            else:
                E = [ints(2, 2) for _ in range(nl)]
                q = [[rng.choice([0, 1, 2]) for _ in range(nl)] for _ in range(2)]
                q = [r if sum(r) else [1] + r[1:] for r in q]
                el = dict(kind='poly', nl=nl, E=E, q=q)
                new = lambda: GenPolyForce(Qf, Tf, np.array(E, dtype=float), np.array(q, dtype=float))
                big = lambda u, v: (8 * u ** (2 * nl), 64 * u ** max(1, 2 * nl - 1) * v)
            d['el'] = el
        return d, new, big

    def matrices(n):
        M, K = (np.array([ints(n, a) for _ in range(n)]).reshape(n, n) for a in (2, 4))
        if rng.random() < 0.5:
            M = np.eye(n, dtype=int) * ri(1, 2)
            K = K + K.T + 12 * np.eye(n, dtype=int)
        return M, K

    def state_of(vs):
        ab = [] if vs.ab is None else QV(vs.ab, 4)
        return dict(M1=QM(vs.M), K1=QM(vs.K), C1=QM(vs.C, 4), ab1=ab)

    held = []               # matrices of the caller and what they were

    def build(key, n, kinds, lat, nops):
        M, K = matrices(n)
        Mf, Kf = M.astype(float), K.astype(float)
        z = rng.random()
        C0, ab0, kw = 0 * M, [], {}
        if z < 0.4:
            ab0 = ints(2, 5)
            C0, kw = ab0[0] * M + ab0[1] * K, dict(ab=[ab0[0] / 4, ab0[1] / 4])
            if z < 0.1:
                kw['C'] = np.eye(n)
        elif z < 0.7:
            C0 = 4 * np.array([ints(n, 3) for _ in range(n)]).reshape(n, n)
            kw = dict(C=C0 / 4)
        held[:] = [(a, a.copy()) for a in [Mf, Kf] + ([kw['C']] if 'C' in kw else [])]
        vs, ex = guard(VibrationSystem, Mf, Kf, **kw)
        made = [force(k, n, lat, nops) for k in kinds]
        key = key + [n, M.tolist(), K.tolist(), ab0, [[d['name'], d['el'], d['Q'], d['T'], d['u0']] for d, _, _ in made]]
        rec.begin(key, opaque=False, M=M.tolist(), K=K.tolist(), C0=C0.tolist(), ab0=ab0,
                  **(state_of(vs) if not ex else dict(M1=[], K1=[], C1=[], ab1=[])))
        return vs, made, ex

    def exc(ex):
        rec.emit(op='exc', prop=focus, exc=ex)

    FR = dict(np=['J', 'VJ', 'J', 'VJ', 'I', 'VI'], E2=['E2', 'E2', 'E2', 'J', 'JJ', 'JJ', 'JVJ'], E3=['E3', 'E3', 'VJ'])
    HC = [([0, 1], 4, ('full',)), ([0, 1, 2, 3], 8, ('full',)), ([1, 3], 8, ('anti',)), ([0, 2], 8, ('per', 4))]
    if part in ('E2', 'E3'):
        HC = HC[:2]

    def kinds_for(nops):
        ks = []
        for _ in range(rng.choice([1, 2, 2, 3, 4])):
            z = rng.random()
            ks.append(rng.choice(FR.get(part, ['J'])) if z < 0.45 else 'lin' if z < 0.7 else
                      rng.choice(['cubic', 'quintic', 'uni', 'poly']))
        if part in ('E2', 'E3') and part not in ks:
            ks[ri(0, len(ks) - 1)] = part
        return ks

    def aft_inputs(made, n, h, nt, sym, lat):
        """integer displacement and direction series, scales of the coefficients"""
        amp = rng.choice([2, 4, 6])
        for _ in range(60):
            ug = np.array([ser.series(rng, nt, sym, amp) for _ in range(n)]).T * lat
            dg = np.array([ser.series(rng, nt, sym, 2) for _ in range(n)]).T * lat
            fm = gm = 1
            for d, _, big in made:
                Q, T = np.array(d['Q']), np.array(d['T'])
                u, v = int(np.abs(ug @ Q.T).max()) + 1, int(np.abs(dg @ Q.T).max()) + 1
                a, b = big(u, v)
                tm = int(np.abs(T).sum(axis=1).max()) + 1
                fm, gm = fm + 2 * a * tm, gm + b * tm
            if max(fm, gm) < 1.5e6:
                break
            amp = max(1, amp - 1)
            if amp == 1 and lat > 1:
                pass
        else:
            return None
        sc = scd = 1
        while fm * (10 ** 6 // sc) > 1.9e9:
            sc *= 10
        while gm * (10 ** 6 // scd) > 1.9e9:
            scd *= 10
        return ug, dg, sc, scd

    def rows(v, nh, n, unit):
        v = np.asarray(v)
        return [FV(x, unit) for x in (v.reshape(nh, -1) if v.shape == (nh * n,) else v.reshape(1, -1))]

    def do_aft(vs, made, h, nt, sym, lat):
        n = vs.M.shape[0]
        x = aft_inputs(made, n, h, nt, sym, lat)
        if x is None:
            return None
        ug, dg, sc, scd = x
        U = ser.pack([ser.coefs(list(c), h) for c in ug.T], h)
        W = ser.pack([ser.coefs(list(c), h) for c in dg.T], h)
        nh = sum(1 if k == 0 else 2 for k in h)
        nograd = rng.random() < 0.35
        A, H = U.copy(), np.array(h)
        r, ex = guard(vs.total_aft, A, 1.0, H, Nt=nt, **(dict(calc_grad=False) if nograd else {}))
        if ex:
            return ex
        JV = [] if nograd else rows(np.asarray(r[1]) @ W if np.shape(r[1]) == (nh * n, nh * n) else np.zeros(1), nh, n, 1e-3 * scd / 4)
        rec.emit(op='aft', h=h, ug=ug.tolist(), dg=dg.tolist(), sc=sc, scd=scd, grad=not nograd,
                 Fc=rows(r[0], nh, n, 1e-3 * sc / 2), JV=JV,
                 argchanged=not (np.array_equal(A, U) and H.tolist() == h))
        return None

    def static(vs, X, Fs):
        A, B = X.astype(float), np.array(Fs, dtype=float)
        r, ex = guard(vs.static_res, A, B)
        if ex:
            return ex
        rec.emit(op='static', X=X.tolist(), F=list(Fs), R=QV(r[0], 4, 1e-5), D=QM(r[1], 4, 1e-5),
                 argchanged=not (A.tolist() == X.tolist() and B.tolist() == list(Fs)))
        if rng.random() < 0.5:
            # the caller goes on using its own arrays
            A *= 0
            B += 7
        return None

    def ser_rows(h):
        return [(k, c) for k in h for c in ('c' if k == 0 else 'cs')]

    def linear(vs, h, U, w):
        """what the harmonic equations hold besides the attached forces"""
        A, H = np.array(U, dtype=float).reshape(-1), np.array(h)
        r, ex = guard(vs.hbm_res, np.hstack((A, float(w))), 0 * A, H, Nt=2 * h[-1] + 2)
        t, e2 = guard(vs.total_aft, A, float(w), H, Nt=2 * h[-1] + 2)
        if ex or e2:
            return ex or e2
        d = np.asarray(r[0]) - np.asarray(t[0])
        big = 1e-14 * (1 + np.max(np.abs(t[0])))
        if not big < 1e-5:
            return None
        rec.emit(op='lin', h=h, U=U, w=w, R=QM(d.reshape(len(U), -1), 4, 1e-4))
        return None

    # -------------------------------------------------------------------- R03
    def sequence(ops, tag):
        n = ri(1, 3)
        h, nt, sym = rng.choice(HC)
        kinds = kinds_for(len(ops))
        only = 'JJ' in kinds or 'JVJ' in kinds
        if only:
            # elements without quasi-static evaluation
            kinds = [{'J': 'JJ', 'VJ': 'JVJ'}.get(k, k) for k in kinds]
            ops = [dict(o, op='aft') if o['op'] in ('trial', 'init', 'commit') else o for o in ops][:5]
        if 'I' in kinds or 'VI' in kinds:
            ops = [o for o in ops if o['op'] not in ('pre', 'real')]
        aft = only or any(o['op'] == 'aft' for o in ops)
        meany = any(k in ('J', 'VJ', 'I', 'VI', 'E2', 'E3', 'JJ', 'JVJ') for k in kinds)
        lat = nt if aft and meany and h[0] == 0 else 1
        if lat > 1:
            kinds = [{'cubic': 'lin', 'quintic': 'uni', 'poly': 'lin'}.get(k, k) for k in kinds]
        if not aft and rng.random() < 0.3:
            # no damping force in statics
            kinds.insert(ri(0, len(kinds)), 'damp')
        late = min(sum(o['op'] == 'add' for o in ops), len(kinds) - 1)
        vs, made, ex = build([tag, [o['op'] for o in ops]], n, kinds, lat, len(ops))
        if ex:
            return exc(ex)
        # a second system, which must be of no influence
        other, oforce = VibrationSystem(np.eye(n), np.eye(n)), Lin(dict(hist=True, pres=True, takes=True, k=1, kp=0), np.eye(n), np.eye(n))
        other.add_nl_force(oforce)
        inn = []
        new_all = []

        def add():
            d, new, _ = made[len(inn)]
            f, ex = guard(new)
            if ex:
                return ex
            _, ex = guard(vs.add_nl_force, f)
            inn.append(made[len(inn)])
            rec.emit(op='add', f={k: v for k, v in d.items() if k != 'name'}, argchanged=False)
            return ex
        for _ in range(len(made) - late):
            ex = add()
            if ex:
                return exc(ex)
        rx = lambda: np.array([ri(-4, 4) * (lat if rng.random() < 0.5 else 1) for _ in range(n)])
        last = rx()
        stale = False           # harmonic evaluations use the history variables of some elements
        for o in ops + [dict(op='aft' if only else 'trial'), dict(op='aft' if aft or only else 'trial')]:
            op = o['op']
            ex = None
            if rng.random() < 0.15:
                z = rng.random()
                if z < 0.4:
                    other.update_force_history(np.ones(n))
                elif z < 0.6:
                    other.init_force_history()
                elif z < 0.8:
                    other.set_prestress_mu()
                else:
                    other.set_aft_initialize(np.ones(n))
                rec.emit(op='other')
            if stale and op in ("trial", "commit", "damp"):
                _, ex = guard(vs.init_force_history)
                rec.emit(op='init', argchanged=False)
                stale = False
            if ex:
                return exc(ex)
            if op == 'trial':
                X = last if rng.random() < 0.2 else last + np.array(ints(n, 2)) if rng.random() < 0.5 else rx()
                ex = static(vs, X, ints(n, 5))
            elif op == 'commit':
                X = last + np.array(ints(n, 2)) if rng.random() < 0.3 else rx() if rng.random() < 0.85 else rx() * 0
                A = X.astype(float)
                _, ex = guard(vs.update_force_history, A)
                rec.emit(op='commit', X=X.tolist(), argchanged=A.tolist() != X.tolist())
                last = X
                A *= 0
            elif op == 'init':
                _, ex = guard(vs.init_force_history)
                rec.emit(op='init', argchanged=False)
            elif op in ('pre', 'real'):
                _, ex = guard(vs.set_prestress_mu if op == 'pre' else vs.reset_real_mu)
                rec.emit(op=op, argchanged=False)
            elif op == 'take':
                X = rx()
                A = X.astype(float)
                _, ex = guard(vs.set_aft_initialize, A)
                rec.emit(op='take', X=X.tolist(), argchanged=A.tolist() != X.tolist())
                A += 3
            elif op == 'add':
                if len(inn) < len(made):
                    ex = add()
            elif op == 'aft':
                ex = do_aft(vs, inn, h, nt, sym, lat)
                stale = stale or any(d['name'] in ('J', 'VJ', 'I', 'VI') for d, _, _ in inn)
            elif op == 'damp':
                z = rng.random()
                kw, ev = {}, dict(ab=[], C=[])
                if z < 0.5:
                    Cn = np.array([ints(n, 4) for _ in range(n)]).reshape(n, n)
                    kw, ev['C'] = dict(C=Cn.astype(float)), Cn.tolist()
                    held.append((kw['C'], kw['C'].copy()))
                if 0.4 < z < 0.9:
                    ab = ints(2, 6)
                    kw['ab'], ev['ab'] = [ab[0] / 4, ab[1] / 4], ab
                lin = [ints(n, 3) for _ in ser_rows(h)], ri(1, 3)
                ex = linear(vs, h, *lin)
                _, e2 = guard(vs.set_new_C, **kw)
                ex = ex or e2
                rec.emit(op='damp', argchanged=not all(np.array_equal(a, b) for a, b in held), **ev, **state_of(vs))
                ex = ex or linear(vs, h, *lin)
                stale = stale or any(d['name'] in ('J', 'VJ', 'I', 'VI') for d, _, _ in inn)
                if not ex and rng.random() < 0.5 and vs.M[0, 0] > 0 and np.array_equal(vs.M, np.eye(n) * vs.M[0, 0]) and np.array_equal(vs.K, vs.K.T) \
                        and np.linalg.eigvalsh(vs.K)[0] > 0.1:
                    _, e2 = guard(vs.linear_frf, np.array([1.0]), np.ones(n), NonlinearSolver(), neigs=n)
                    rec.emit(op='frf', refused=e2 == 'AssertionError')
                    if e2 not in (None, 'AssertionError'):
                        ex = e2
            if ex:
                return exc(ex)

    # -------------------------------------------------------------------- P03
    def pack_loc(loc, sc, half, made, zero):
        out = []
        for k, (Uh, ut, Fh, ft) in enumerate(loc):
            exact = zero or k >= len(made) or not made[k][0]['mean']
            out.append(dict(Uh=[FV(x, 1e-3 * sc) for x in np.atleast_2d(Uh)], ut=QM(ut, 1, 1e-6),
                            Fh=[FV(x, 1e-3 * sc / half) for x in np.atleast_2d(Fh)], ft=[[Q(v, half, 1e-5) if exact else F(v, 1 / half) for v in r] for r in np.asarray(ft)]))
        return out

    def local(damped):
        n = ri(1, 3)
        h, nt, sym = rng.choice(HC if part != 'np' else [c for c in ser.CHOICES if c[1] <= 12])
        kinds = ['damp'] * ri(1, 3) if damped else [{'JJ': 'E2', 'JVJ': 'J'}.get(k, k) for k in kinds_for(0)]
        zero = h[0] == 0
        lat = nt if zero and any(k in ('J', 'VJ', 'I', 'VI', 'E2', 'E3') for k in kinds) else 1
        if lat > 1:
            kinds = [{'cubic': 'lin', 'quintic': 'uni', 'poly': 'lin'}.get(k, k) for k in kinds]
        vs, made, ex = build(['local', h, nt], n, kinds, lat, 2)
        if ex:
            return exc(ex)
        for d, new, _ in made:
            f, ex = guard(new)
            if not ex:
                _, ex = guard(vs.add_nl_force, f)
            if ex:
                return exc(ex)
            rec.emit(op='add', f={k: v for k, v in d.items() if k != 'name'}, argchanged=False)
        w = rng.choice([1, 2, 3])
        if rng.random() < 0.4:
            X = np.array(ints(n, 3))
            _, ex = guard(vs.set_aft_initialize, X.astype(float))
            rec.emit(op='take', X=X.tolist(), argchanged=False)
        if rng.random() < 0.2 and not any(k in ('I', 'VI') for k in kinds):
            _, ex = guard(vs.set_prestress_mu)
            rec.emit(op='pre', argchanged=False)
        for _ in range(rng.choice([1, 1, 2])):
            if damped:
                zm = {'full': ('zeromean',), 'per': ('perz',) + sym[1:]}.get(sym[0], sym)
                vg = np.array([ser.series(rng, nt, zm, 3) for _ in range(n)]).T
                ug = dg = np.zeros((nt, n), dtype=int)
                U = ser.pack([ser.integral(ser.coefs(list(c), h), h) for c in vg.T], h)
                fm = sum(4 * (w * int(np.abs(vg @ np.array(d['Q']).T).max()) + 1) ** 3 * (1 + int(np.abs(np.array(d['T'])).sum(axis=1).max()))
                         for d, _, _ in made) * 2
                sc = 1
                while fm * (10 ** 6 // sc) > 1.9e9:
                    sc *= 10
                if sc > 1000:
                    continue
            else:
                x = aft_inputs(made, n, h, nt, sym, lat)
                if x is None:
                    continue
                ug, dg, sc, _ = x
                vg = np.zeros((nt, n), dtype=int)
                U = ser.pack([ser.coefs(list(c), h) for c in ug.T], h)
            nh = sum(1 if k == 0 else 2 for k in h)
            A, H = U.copy(), np.array(h)
            if rng.random() < 0.3:
                guard(vs.total_aft, U * 0.3 + 1.0, 2.0, np.array(h), Nt=nt)
            loc, ex = guard(post.local_harmonic_forces, vs, A, float(w), H, Nt=nt)
            if ex:
                return exc(ex)
            tot, ex = guard(vs.total_aft, U.copy(), float(w), np.array(h), Nt=nt)
            if ex:
                return exc(ex)
            rec.emit(op='local', h=h, w=w, ug=ug.tolist(), vg=vg.tolist(), dg=dg.tolist(), sc=sc, loc=pack_loc(loc, sc, 2, made, zero),
                     Tot=rows(tot[0], nh, n, 1e-3 * sc / 2),
                     argchanged=not (np.array_equal(A, U) and H.tolist() == h))

    def opaque():
        """rough contact and other forces together"""
        n = 3
        h, nt, sym = rng.choice(HC[:2] if not quick else HC[:1] + HC[1:2])
        nf = ri(1, 2)
        Qs, Ts, fs = [], [], []
        vs = VibrationSystem(np.eye(n), np.eye(n))
        model = rng.choice(['TAN', 'TAN', 'MIF'])
        for i in range(nf + 1):
            Q, T = maps(3, 3) if rng.random() < 0.6 else (np.eye(3, dtype=int), np.eye(3, dtype=int))
            Q[2] = np.abs(Q[2])
            if i == 1 and nf == 2:
                Q, T = maps(2, 3)
                f = CubicForce(Q.astype(float), T.astype(float), np.array([1e-3, 2e-3]))
            else:
                z = rng.random()
                u0 = {} if z < 0.4 else dict(u0=float(rng.choice([-6, 4, 9]))) if z < 0.6 else dict(u0=np.array(ints(3, 8), dtype=float))
                f = RC(Q.astype(float), T.astype(float), 3.0, 0.3, 50.0, 0.1, 0.5, rng.choice([0.3, 5.0, 50.0]), meso_gap=float(ri(-3, 0)),
                       gaps=np.array([0.0, 1.0]), gap_weights=np.array([1.0, 0.5]), tangent_model=model, **u0)
            Qs.append(Q.tolist())
            Ts.append(T.tolist())
            vs.add_nl_force(f)
        S = np.array([ser.series(rng, nt, sym, 3) for _ in range(n)]).T
        key = ['rough', h, nt, model, Qs, Ts, S.tolist(), rec.case]
        rec.begin(key, opaque=True, M=[], K=[], C0=[], ab0=[])
        U = ser.pack([ser.coefs(list(c), h) for c in S.T], h)
        if rng.random() < 0.5:
            guard(vs.set_aft_initialize, np.array(ints(n, 2), dtype=float))
        loc, ex = guard(post.local_harmonic_forces, vs, U.copy(), 1.0, np.array(h), Nt=nt, limit=200)
        if ex:
            return exc(ex)
        tot, ex = guard(vs.total_aft, U.copy(), 1.0, np.array(h), Nt=nt, limit=200)
        if ex:
            return exc(ex)
        nh = sum(1 if k == 0 else 2 for k in h)
        m = max(1e-9, max(float(np.abs(x[3]).max()) for x in loc))
        unit = m / 1000.0
        # samples in units of m / 1000, coefficients in the same unit (sc = 1000)
        rec.emit(op='opaque', h=h, Q=Qs, T=Ts, ug=S.tolist(),
                 loc=[dict(ut=QM(x[1], 1, 1e-6), ft=[FV(r, unit) for r in np.asarray(x[3])],
                           Fh=[FV(r, unit) for r in np.asarray(x[2])]) for x in loc],
                 Tot=rows(tot[0], nh, n, unit))

    if focus == 'R03':
        m = dict(np=160, E2=60, E3=60)[part]
        if not quick:
            m *= 12
        for b in (beh if len(beh) <= m else rng.sample(beh, m)):
            sequence(list(b), 'model')
        for _ in range(m):
            ops = ['commit'] * 4 + ['trial'] * 3 + ['init', 'pre', 'real', 'take', 'aft', 'damp', 'add']
            sequence([dict(op=rng.choice(ops)) for _ in range(ri(3, 12))], 'random')
        # modes entered and left repeatedly, starting positions taken repeatedly
        for _ in range(m // 2):
            ops = ['commit'] * 4 + ['trial'] * 2 + rng.choice([['pre'] * 4 + ['real'] * 3, ['pre', 'real', 'take', 'take', 'init'], ['pre', 'real', 'init', 'aft', 'aft', 'take']])
            sequence([dict(op=rng.choice(ops)) for _ in range(ri(4, 10))]
                     + [dict(op=rng.choice(['pre', 'pre', 'real'])) for _ in range(ri(0, 3))] + [dict(op='real')] * ri(0, 1)
                     + [dict(op='commit'), dict(op='trial')], 'modes')
    elif part == 'rc':
        for _ in range(25 if quick else 300):
            opaque()
    else:
        for _ in range(dict(np=160, E2=50, E3=50)[part] * (1 if quick else 12)):
            local(part == 'np' and rng.random() < 0.25)


driver_main(run)
