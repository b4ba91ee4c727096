"""Spring-slider elements.  FOCUS: F01 (quasi-static histories), F02 (harmonic evaluations)."""
import json
from vlib import *
import numpy as np
import series as ser


def run(rec, tier, rng, extra):
    focus = extra['FOCUS']
    quick = tier == 'quick'
    from tmdsimpy.nlforces.jenkins_element import JenkinsForce
    from tmdsimpy.nlforces.vector_jenkins import VectorJenkins
    from tmdsimpy.nlforces.iwan4_element import Iwan4Force
    from tmdsimpy.nlforces.vector_iwan4 import VectorIwan4
    from tmdsimpy.jax.nlforces.jenkins_element import JenkinsForce as JJenkins
    from tmdsimpy.jax.nlforces.vector_jenkins import VectorJenkins as JVector
    from tmdsimpy.jax.nlforces.elastic_dry_fric_2d import ElasticDryFriction2D as E2
    from tmdsimpy.jax.nlforces.elastic_dry_fric_3d import ElasticDryFriction3D as E3

    ri = rng.randint
    beh = json.load(open(extra['beh'])) if extra.get('beh') else {}

    class El:
        """a real element with its integer description; lattice: real displacement = du * integer"""
        pass

    def maps(nl, extra_dofs):
        """Q (nl x n) with selection part so that X with Q X = u exists; independent T"""
        n = nl + extra_dofs
        Q = np.zeros((nl, n), dtype=int)
        cols = rng.sample(range(n), nl)
        for i, c in enumerate(cols):
            Q[i, c] = rng.choice([1, 1, -1])
        for c in range(n):
            if c not in cols:
                Q[:, c] = [ri(-2, 2) for _ in range(nl)]
        T = np.array([[ri(-2, 2) for _ in range(nl)] for _ in range(n)])
        if rng.random() < 0.3:
            T = Q.T.copy()
        return Q, T, cols

    def solve(el, u):
        """integer X with Q X = u"""
        X = np.array([ri(-3, 3) for _ in range(el.Q.shape[1])]) * el.lat
        rest = [c for c in range(el.Q.shape[1]) if c not in el.cols]
        for i, c in enumerate(el.cols):
            X[c] = el.Q[i, c] * (u[i] - sum(el.Q[i, k] * X[k] for k in rest))
        return X

    def make(kind, lim_hint=12, lat=1):
        e = El()
        e.kind, e.lat, e.du, e.fu = kind, 1, 1.0, 1.0
        u0kw = {}
        if kind in ('J', 'VJ', 'JJ', 'JV'):
            e.Q, e.T, e.cols = maps(1, ri(0, 2))
            kt, Fs = rng.choice([4, 8]), (2 * ri(0, lim_hint) + 1) * lat
            e.el = dict(tan=[dict(j=1, n=0)], nrm=[], kap=0, gap2=0, m=0, nl=1, sl=[dict(g=kt, lim=Fs, w=1)])
            cls = {'J': JenkinsForce, 'VJ': VectorJenkins, 'JJ': JJenkins, 'JV': JVector}[kind]
            e.new = lambda u0=None, has=False: cls(e.Q.astype(float), e.T.astype(float), float(kt), float(Fs),
                                                   **({'u0': u0} if has else {}))
            e.maxf, e.maxd = Fs, lambda dm: 8 * kt * dm
        elif kind in ('I', 'VI'):
            e.Q, e.T, e.cols = maps(1, ri(0, 2))
            n, al, chi = rng.choice([1, 2, 3]), rng.choice([1, 2]), rng.choice([0, 1, 1, 2] if lat == 1 else [0, 1, 1])
            frac = focus == 'F01' and rng.random() < 0.3
            if frac:
                chi = rng.choice([-0.5, -0.25, 0.5])
            b1, b2 = rng.choice([(0, 1), (1, 1), (1, 2), (2, 1)])
            if al == 1:
                ph, dl, P = [2 * i - 1 for i in range(1, n + 1)], [2] * n, 2 * n
            else:
                ph = [3 * 2 ** j - 2 for j in range(n)]
                dl, P = [2 * 2 ** j for j in range(n)], 2 * (2 ** n - 1)
            R = 5 * lat
            ph, dl, P = [p * R for p in ph], [d * R for d in dl], P * R
            W = [(chi + 1) * p ** chi * d * b2 for p, d in zip(ph, dl)] + [b1 * P ** (chi + 1)]
            if frac:
                # irrational weights: rounded to at least three digits (forces are then compared within the rounding)
                g = b2 * min(w for w in W if w > 0) / b2 / 800
                W = [round(w / g) for w in W]
            else:
                # common factor of the weights
                g = 0
                for w in W:
                    g = np.gcd(g, w)
                g = int(g)
                W = [w // g for w in W]
            e.frac = frac
            e.lat = 7 * lat
            beta = b1 / b2
            D = beta + (chi + 1) / (chi + 2)
            kt, Fs = rng.choice([1.0, 3.0, 0.5]), rng.choice([1.0, 2.0, 5.0])
            phimax = Fs * (1 + beta) / kt / D
            e.du = phimax / P
            e.fu = Fs / (D * b2 * P ** (chi + 2)) * g
            e.el = dict(tan=[dict(j=1, n=0)], nrm=[], kap=0, gap2=0, m=0, nl=1,
                        sl=[dict(g=1, lim=p, w=w) for p, w in zip(ph + [P], W)])
            cls = Iwan4Force if kind == 'I' else VectorIwan4
            e.new = lambda u0=None, has=False: cls(e.Q.astype(float), e.T.astype(float), kt, Fs, chi, beta,
                                                   Nsliders=n, alphasliders=float(al))
            e.maxf, e.maxd = sum(w * p for w, p in zip(W, ph + [P])), lambda dm: 8 * sum(W) * dm
        else:
            per = 2 if kind == 'E2' else 3
            nc = rng.choice([1, 1, 2]) if focus == 'F01' or not quick else rng.choice([1, 1, 1, 1, 2])
            nl = per * nc
            e.Q, e.T, e.cols = maps(nl, ri(0, 1))
            kt, kap, m, gap2 = rng.choice([1, 2, 3]), rng.choice([4, 4, 8]), rng.choice([1, 2, 3]), rng.choice([-3, -1, 1, 1, 3])
            gap2 *= lat
            tan, nrm = [], []
            for c in range(nc):
                b = c * per + 1
                tan += [dict(j=b + i, n=b + per - 1) for i in range(per - 1)]
                nrm.append(b + per - 1)
            e.el = dict(tan=tan, nrm=nrm, kap=kap, gap2=gap2, m=m, nl=nl, sl=[dict(g=kt, lim=0, w=1)])
            cls = E2 if kind == 'E2' else E3
            e.new = lambda u0=None, has=False: cls(e.Q.astype(float), e.T.astype(float), float(kt), 2.0 * kap, m / 4,
                                                   meso_gap=gap2 / 2, **({'u0': u0} if has else {}))
            e.maxf = None
            e.kap, e.m, e.kt, e.gap2 = kap, m, kt, gap2
        return e

    def exc(ex):
        rec.emit(op='exc', prop=focus, exc=ex)

    # -------------------------------------------------------------------- F01
    def history(kind, ops, tag):
        """ops: list of ('init'|'pre'|'real'|'aft'|(u, upd))"""
        e = make(kind)
        if kind in ('I', 'VI'):
            ops = [o for o in ops if o not in ('pre', 'real')]
        ul = []
        for o in ops:
            if isinstance(o, tuple):
                u = list(o[0]) + [ri(-3, 3) for _ in range(e.el['nl'])]
                u = [v * e.lat for v in u[:e.el['nl']]]
                ul.append((solve(e, u), o[1]))
            else:
                ul.append(o)
        key = [tag, kind, e.el, e.Q.tolist(), e.T.tolist(), [o if isinstance(o, str) else [o[0].tolist(), o[1]] for o in ul]]
        rec.begin(key, nontrivial=len(ops) > 1, el=e.el)
        f, ex = guard(e.new)
        if ex:
            return exc(ex)
        for o in ul:
            if o == 'init':
                _, ex = guard(f.init_history)
                rec.emit(op='init', el=e.el)
            elif o == 'pre':
                _, ex = guard(f.set_prestress_mu)
                rec.emit(op='pre')
            elif o == 'real':
                _, ex = guard(f.reset_real_mu)
                rec.emit(op='real')
            elif o == 'aft':
                ex = None
                if kind in ('E2', 'E3'):
                    n = e.Q.shape[1]
                    U = np.array([ri(-5, 5) for _ in range(3 * n)], dtype=float)
                    _, ex = guard(f.aft, U, 1.0, np.array([0, 1]), Nt=8)
                    rec.emit(op='other')
            else:
                X, upd = o
                A = X.astype(float) * e.du
                B = A.copy()
                r, ex = guard(f.force, A, update_hist=upd) if upd or rng.random() < 0.5 else guard(f.force, A)
                if not ex:
                    if getattr(e, 'frac', False):
                        Tm, Qm = int(np.abs(e.T).max()), int(np.abs(e.Q).max())
                        ft = Tm * sum(q['lim'] for q in e.el['sl']) // 2 + 3
                        dt = 2 * Tm * Qm * len(e.el['sl']) + 3
                        Fq, Dq = FV(r[0], e.fu), [FV(d, e.fu / e.du / 4) for d in np.atleast_2d(r[1])]
                    else:
                        ft = dt = 0
                        Fq, Dq = QV(r[0], 1 / e.fu, 1e-5), QM(r[1], 4 * e.du / e.fu, 1e-5)
                    rec.emit(op='force', el=e.el, X=X.tolist(), Q=e.Q.tolist(), T=e.T.tolist(), upd=upd,
                             F=Fq, D=Dq, ft=ft, dt=dt,
                             argchanged=not np.array_equal(A, B))
                    # the caller goes on using its own array
                    A *= 0
            if ex:
                return exc(ex)

    def conv(b):
        ops = []
        for o in b:
            if o['op'] in ('trial', 'commit'):
                ops.append((o['u'], o['op'] == 'commit'))
            else:
                ops.append(o['op'])
        return ops

    def randops(kind):
        n = ri(3, 14)
        amp = rng.choice([3, 6, 10])
        ops, u = [], [0] * 6
        if rng.random() < 0.35:
            # prestress phase as in use: frictionless evaluations, then real friction
            # (a mode that is already set may be set again)
            ops += ['pre'] * rng.choice([1, 1, 2])
            for _ in range(ri(1, 3)):
                u = [v + ri(-3, 3) for v in u]
                ops.append((list(u), rng.random() < 0.7))
                if rng.random() < 0.25:
                    ops.append('pre')
            ops += ['real'] * rng.choice([1, 1, 2])
        for _ in range(n):
            z = rng.random()
            if z < 0.06:
                ops.append('init')
            elif z < 0.12:
                ops.append('pre')
            elif z < 0.2:
                ops.append('real')
            elif z < 0.25:
                ops.append('aft')
            else:
                if rng.random() < 0.5:
                    u = [v + ri(-2, 2) for v in u]
                else:
                    u = [ri(-amp, amp) for _ in u]
                ops.append((list(u), rng.random() < 0.65))
        return ops

    # -------------------------------------------------------------------- F02
    JCH = [([0, 1], 4, ('full',)), ([0, 1, 2, 3], 8, ('full',)), ([1, 3], 8, ('anti',)),
           ([0, 2, 4], 12, ('per', 6)), ([0, 1, 2, 3, 4], 10, ('full',)), ([0, 1, 2, 3, 4, 5], 12, ('full',))]
    if quick:
        # (compilation dominates)
        JCH = [JCH[i] for i in sorted(rng.sample(range(5), 3))] + JCH[5:]
    else:
        JCH = [c for c in ser.CHOICES if c[1] <= 16]

    def aft(kind, fobj=None, e=None):
        jaxy = kind in ('JJ', 'JV', 'E2', 'E3')
        h, nt, sym = rng.choice(JCH if jaxy else ser.CHOICES)
        if jaxy and kind in ('E2', 'E3') and quick:
            h, nt, sym = rng.choice(JCH[:3])
        zero = h[0] == 0
        # documented start: 0 / given position, or the mean of the displacement
        mean = kind in ('J', 'VJ', 'I', 'VI') or (zero and rng.random() < 0.4)
        lat = nt if mean and zero else 1
        e = make(kind, lim_hint=rng.choice([3, 12, 40]), lat=lat)
        n = e.Q.shape[1]
        nl = e.el['nl']
        amp = rng.choice([3, 6, 12, 20])
        if kind in ('I', 'VI'):
            amp = rng.choice([3, 6, 10])
        S = [ser.series(rng, nt, sym, amp) for _ in range(n)]
        V = [ser.series(rng, nt, sym, 3) for _ in range(n)]
        su, sv = e.lat * (lat if kind not in ('I', 'VI') else 1), lat
        # series of integers (multiples of the lattice)
        ug = (np.array(S).T * su)
        dg = (np.array(V).T * sv)
        ntan = len(e.el['tan'])
        u0, kw, setx = [0] * ntan, dict(has=False), None
        if jaxy:
            if mean:
                kw = dict(has=True, u0=None)
            elif kind in ('JJ', 'JV'):
                z = ri(-4, 4)
                u0, kw = [z], dict(has=True, u0=float(z))
            else:
                z = rng.random()
                if z < 0.3:
                    pass
                elif z < 0.5:
                    v = ri(-4, 4)
                    u0, kw = [v] * ntan, dict(has=True, u0=float(v))
                elif z < 0.8:
                    v = [ri(-4, 4) for _ in range(nl)]
                    u0, kw = [v[t['j'] - 1] for t in e.el['tan']], dict(has=True, u0=np.array(v, dtype=float))
                else:
                    X0 = np.array([ri(-3, 3) for _ in range(n)])
                    v = e.Q @ X0
                    u0, setx = [int(v[t['j'] - 1]) for t in e.el['tan']], X0.astype(float)
        U = ser.pack([ser.coefs(list(c), h) for c in ug.T], h) * e.du
        W = ser.pack([ser.coefs(list(c), h) for c in dg.T], h) * e.du
        w = rng.choice([0.0, 1.0, 2.5, 1])
        grad = rng.random() >= 0.2
        key = [kind, e.el, h, nt, e.Q.tolist(), e.T.tolist(), ug.T.tolist(), dg.T.tolist(), u0 if not mean else 'mean', grad]
        rec.begin(key, el=e.el)
        f, ex = guard(e.new, **kw)
        if ex:
            return exc(ex)
        if setx is not None:
            _, ex = guard(f.set_aft_initialize, setx)
            if ex:
                return exc(ex)
        # magnitudes
        tmax = int(np.abs(e.T).sum(axis=1).max())
        um, dm = int(np.abs(ug @ e.Q.T).max()), int(np.abs(dg @ e.Q.T).max())
        if e.maxf is None:
            fm = e.kap * (2 * um + abs(e.gap2))
            dmx = max(8 * e.kt * dm, 2 * e.m * e.kap * dm, 8 * e.kap * dm) + 8 * e.kt * dm
        else:
            fm, dmx = e.maxf, e.maxd(dm)
        sc = scd = 1
        while fm * tmax * (10 ** 6 // sc) > 2e9:
            sc *= 10
        while dmx * tmax * (10 ** 6 // scd) > 2e9:
            scd *= 10
        reps = rng.choice([1, 1, 2])
        H = np.array(h)
        for k in range(reps):
            if k:
                # anything else in between
                z = rng.random()
                if z < 0.5:
                    guard(f.aft, U * 0.37 + 1.0, 2.0, H, Nt=nt)
                elif hasattr(f, 'force') and kind in ('E2', 'E3', 'I', 'VI'):
                    guard(f.force, np.ones(n) * 3 * e.du, update_hist=True)
                    if kind in ('E2', 'E3') and rng.random() < 0.5:
                        f.set_prestress_mu()
                        guard(f.force, np.ones(n) * 5 * e.du, update_hist=True)
                        f.reset_real_mu()
                elif kind in ('J', 'VJ'):
                    guard(f.force, np.ones(n) * 3.0, update_hist=True)
            A, B = U.copy(), H.copy()
            r, ex = guard(f.aft, A, w, B, Nt=nt, **({} if grad else dict(calc_grad=False)))
            if ex:
                return exc(ex)
            Fc = np.asarray(r[0])
            nh = sum(1 if q == 0 else 2 for q in h)
            ev = dict(op='aft', el=e.el, h=h, ug=ug.tolist(), dg=dg.tolist(), Q=e.Q.tolist(), T=e.T.tolist(),
                      mean=bool(mean and zero), u0=u0, sc=sc, scd=scd, grad=grad,
                      F=[FV(x, 1e-3 * sc * e.fu) for x in (Fc.reshape(nh, -1) if Fc.shape == (nh * n,) else Fc.reshape(1, -1))],
                      JV=[], dw=[], argchanged=not (np.array_equal(A, U) and np.array_equal(B, H)))
            if grad:
                JV = np.asarray(r[1]) @ W if np.shape(r[1]) == (nh * n, nh * n) else np.zeros(1)
                ev['JV'] = [FV(4 * x, 1e-3 * scd * e.fu) for x in (JV.reshape(nh, -1) if JV.shape == (nh * n,) else JV.reshape(1, -1))]
                ev['dw'] = QV(r[2], 1e6)
            elif len(r) != 1:
                ev['F'] = []
            rec.emit(**ev)

    if focus == 'F01':
        kinds = ['J', 'VJ', 'I', 'VI', 'E2', 'E3']
        for k in kinds:
            bs = beh.get('contact' if k in ('E2', 'E3') else 'iwan', [])
            if k in ('I', 'VI'):
                bs = [b for b in bs if not any(o['op'] in ('pre', 'real') for o in b)]
            m = 140 if quick else 2500
            for b in (bs if len(bs) <= m else rng.sample(bs, m)):
                ops = conv(b)
                if k == 'E3':
                    ops = [o if isinstance(o, str) else ([o[0][0], ri(-2, 2), o[0][1]], o[1]) for o in ops]
                history(k, ops, 'model')
            for _ in range(80 if quick else 1500):
                history(k, randops(k), 'random')
    else:
        n = dict(J=90, VJ=90, I=70, VI=70, JJ=70, JV=70, E2=90, E3=70)
        part = extra.get('PART')
        for k, c in n.items():
            if part and k not in part.split(','):
                continue
            for _ in range(c if quick else c * 12):
                aft(k)


driver_main(run)
