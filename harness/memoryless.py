"""Memoryless elements (F03)."""
from vlib import *
import numpy as np
import series as ser


def run(rec, tier, rng, extra):
    quick = tier == 'quick'
    from tmdsimpy.nlforces.cubic_stiffness import CubicForce
    from tmdsimpy.nlforces.quintic_stiffness import QuinticForce
    from tmdsimpy.nlforces.cubic_damping import CubicDamping
    from tmdsimpy.nlforces.unilateral_spring import UnilateralSpring
    from tmdsimpy.nlforces.general_poly_stiffness import GenPolyForce
    from tmdsimpy.nlforces.iwan_bb_conserve import ConservativeIwanBB
    ri = rng.randint

    def exc(ex):
        rec.emit(op='exc', prop='F03', exc=ex)

    iwan = {}

    def make(kind, gap0=False):
        """description, object, unit of displacement, unit of force"""
        nl = rng.choice([1, 2, 2, 3])
        n = max(1, nl + rng.choice([-1, 0, 0, 1]))
        Q = np.array([[ri(-1, 1) for _ in range(n)] for _ in range(nl)])
        if rng.random() < 0.3:
            Q = np.eye(nl, dtype=int)
            n = nl
        T = np.array([[ri(-2, 2) for _ in range(nl)] for _ in range(n)])
        if rng.random() < 0.3:
            T = Q.T.copy()
        Qf, Tf = Q.astype(float), T.astype(float)
        vec = lambda lo, hi: [ri(lo, hi) for _ in range(nl)]
        du, fu = 1.0, 1.0
        if kind in ('cubic', 'quintic', 'damp'):
            a = vec(-3, 3)
            if rng.random() < 0.5:
                a = [rng.choice([-2, 1, 2, 3])] * nl
                par = float(a[0])
            else:
                par = np.array(a, dtype=float)
            cls = dict(cubic=CubicForce, quintic=QuinticForce, damp=CubicDamping)[kind]
            el, f = dict(kind=kind, nl=nl, a=a), cls(Qf, Tf, par)
        elif kind == 'uni':
            a, N, d2 = vec(1, 5), vec(-3, 5), [rng.choice([-5, -3, -1, 1, 3]) for _ in range(nl)]
            z = rng.random()
            if z < 0.3:
                a, N, d2 = [a[0]] * nl, [N[0]] * nl, [d2[0]] * nl
                f = UnilateralSpring(Qf, Tf, float(a[0]), Npreload=float(N[0]), delta=d2[0] / 2)
            elif z < 0.4:
                N = [0] * nl
                f = UnilateralSpring(Qf, Tf, np.array(a, dtype=float), delta=np.array(d2) / 2)
            elif z < 0.5 and gap0:
                d2 = [0] * nl
                kw = {}
                if rng.random() < 0.5:
                    N = [0] * nl
                else:
                    kw['Npreload'] = np.array(N, dtype=float)
                f = UnilateralSpring(Qf, Tf, np.array(a, dtype=float), **kw)
            else:
                f = UnilateralSpring(Qf, Tf, np.array(a, dtype=float), Npreload=np.array(N, dtype=float),
                                     delta=np.array(d2) / 2)
            el, fu = dict(kind=kind, nl=nl, a=a, N=N, d2=d2), 0.5
        elif kind == 'poly':
            cnl = ri(1, 4)
            E = [[ri(-3, 3) for _ in range(cnl)] for _ in range(nl)]
            q = []
            for _ in range(cnl):
                r = [0] * nl
                for _ in range(rng.choice([1, 2, 3, 3])):
                    r[ri(0, nl - 1)] += 1
                q.append(r)
            el = dict(kind=kind, nl=nl, E=E, q=q)
            f = GenPolyForce(Qf, Tf, np.array(E, dtype=float), np.array(q, dtype=rng.choice([int, float])))
        else:
            P, chi = rng.choice([(9, 0), (15, 0), (25, 0), (9, 1), (15, 1), (25, 1), (9, 2)])
            if kind == 'iwanhalf':
                # local displacements are dofs up to sign, so that squares can be prescribed
                n = nl
                Q = np.zeros((nl, n), dtype=int)
                for j, q in enumerate(rng.sample(range(n), nl)):
                    Q[j, q] = rng.choice([-1, 1])
                T = np.array([[ri(-2, 2) for _ in range(nl)] for _ in range(n)])
                Qf, Tf = Q.astype(float), T.astype(float)
                p, k = rng.choice([(3, 3), (4, 3), (5, 3), (3, 5)])
                P, chi = p * p, k / 2 - 2
            b1, b2 = rng.choice([(0, 1), (1, 1), (1, 2), (2, 1)])
            beta = b1 / b2
            D = beta + (chi + 1) / (chi + 2)
            kt, Fs = rng.choice([1.0, 3.0, 0.5]), rng.choice([1.0, 2.0, 5.0])
            phimax = Fs * (1 + beta) / kt / D
            du = phimax / P
            fu = kt * phimax / (P ** (2 + chi) * (b1 + b2) * (chi + 2))
            el = dict(kind=kind, nl=nl, P=P, chi=chi, b1=b1, b2=b2)
            if kind == 'iwanhalf':
                fu = kt * phimax / (p ** k * (b1 + b2) * k)
                el = dict(kind=kind, nl=nl, p=p, k=k, b1=b1, b2=b2)
            f = ConservativeIwanBB(Qf, Tf, kt, Fs, chi, beta)
            iwan.update(args=(kt, Fs, chi, beta), phimax=phimax)
        return el, f, Q, T, du, fu

    def square(m, p):
        # (series: not at the end of the backbone, where the derivative jumps)
        return rng.choice([-1, 1]) * rng.choice([k for k in range(m + 1) if k != p]) ** 2

    def squares(nt, sym, m, p):
        """a series of squares (up to sign) of the symmetry"""
        if sym[0] in ('per', 'perz', 'antiper'):
            return squares(sym[1], ({'per': 'full', 'perz': 'zeromean', 'antiper': 'anti'}[sym[0]],), m, p) * (nt // sym[1])
        for _ in range(20000):
            s = [square(m, p) for _ in range(nt)]
            if sym[0] == 'anti':
                s = s[:nt // 2] + [-v for v in s[:nt // 2]]
            if (nt % 2 or sum(s[::2]) == sum(s[1::2])) and (sym[0] != 'zeromean' or sum(s) == 0):
                return s
        return [0] * nt

    def static(kind):
        el, f, Q, T, du, fu = make(kind, True)
        edge = kind == 'iwanbb' and rng.random() < 0.5
        if edge:          # local displacements are dofs up to sign: the end of the backbone can be met exactly
            Q = np.zeros(Q.shape, dtype=int)
            for j, q in enumerate(rng.sample(range(Q.shape[1]), min(Q.shape))):
                Q[j, q] = rng.choice([-1, 1])
            f = ConservativeIwanBB(Q.astype(float), T.astype(float), *iwan['args'])
        rec.begin(['static', kind, el, Q.tolist(), T.tolist(), rec.case])
        n = Q.shape[1]
        for _ in range(ri(2, 4)):
            amp = {'quintic': 4, 'iwanbb': 20}.get(kind, 6)
            X = np.array([ri(-amp, amp) for _ in range(n)])
            if kind == 'iwanbb':
                X *= 2
            if kind == 'iwanhalf':
                X = np.array([square(el['p'] + 3, el['p']) for _ in range(n)])
            if rng.random() < 0.08:
                X *= 0
            if kind == 'uni' and el['d2'][0] == 0 and not np.all(Q @ X):
                continue        # exactly closing: no unique derivative
            if edge:
                X = np.array([rng.choice([-1, 1]) * rng.choice([el['P'], el['P'], ri(0, el['P'] + 3)]) for _ in range(n)])
            if kind == 'iwanhalf':
                X = np.array([rng.choice([-1, 1]) * rng.choice([el['p'] ** 2, abs(v)]) if rng.random() < 0.3 else v for v in X])
            A = X * du
            if kind in ('iwanbb', 'iwanhalf'):
                end = el['P'] if kind == 'iwanbb' else el['p'] ** 2
                A = np.where(np.abs(X) == end, np.sign(X) * iwan['phimax'], A)
            B = A.copy()
            r, ex = guard(f.force, A)
            if ex:
                return exc(ex)
            rec.emit(op='force', el=el, Q=Q.tolist(), T=T.tolist(), X=X.tolist(), F=QV(r[0], 1 / fu, 1e-5),
                     D=QM(r[1], du / fu, 1e-5), argchanged=not np.array_equal(A, B))

    def aft(kind):
        el, f, Q, T, du, fu = make(kind)
        h, nt, sym = rng.choice(ser.CHOICES)
        n, nl = Q.shape[1], el['nl']
        amp = dict(cubic=5, quintic=2, damp=3, uni=8, poly=4, iwanbb=14, iwanhalf=el.get('p', 0) + 2)[kind]
        zm = {'full': ('zeromean',), 'per': ('perz',) + sym[1:]}.get(sym[0], sym)
        one = lambda s, a: np.array([ser.series(rng, nt, s, a) for _ in range(n)]).T
        w = rng.choice([0, 1, 2, 3])
        zero = np.zeros((nt, n), dtype=int)
        for _ in range(50):
            if kind == 'damp':
                ug, dg = zero, zero
                vg, dv = one(zm, amp), one(zm, 2)
                U = ser.pack([ser.integral(ser.coefs(list(c), h), h) for c in vg.T], h)
                V = ser.pack([ser.integral(ser.coefs(list(c), h), h) for c in dv.T], h)
            else:
                ug, dg, vg, dv = one(sym, amp), one(sym, 2), zero, zero
                if kind == 'iwanbb':
                    ug = ug * 2
                if kind == 'iwanhalf':
                    ug = np.array([squares(nt, sym, amp, el['p']) for _ in range(n)]).T
                U = ser.pack([ser.coefs(list(c), h) for c in ug.T], h) * du
                V = ser.pack([ser.coefs(list(c), h) for c in dg.T], h) * du
            # magnitudes by evaluating bounds
            um = int(np.abs(ug @ Q.T).max())
            vm = int(np.abs(vg @ Q.T).max())
            dm = int(np.abs(dg @ Q.T).max()) + w * int(np.abs(dv @ Q.T).max())
            tm = int(np.abs(T).sum(axis=1).max())
            if kind in ('cubic', 'quintic', 'damp'):
                p = 5 if kind == 'quintic' else 3
                x = w * vm if kind == 'damp' else um
                am = max(abs(k) for k in el['a'])
                fm, gm, wm = am * x ** p, p * am * x ** (p - 1) * dm, 3 * am * x * x * vm
            elif kind == 'uni':
                fm, gm, wm = max(el['a']) * (2 * um + 5) + 10, 2 * max(el['a']) * dm, 0
            elif kind == 'poly':
                s = sum(abs(k) for r in el['E'] for k in r)
                fm, gm, wm = s * max(1, um) ** 3, s * 3 * max(1, um) ** 2 * dm * nl, 0
            elif kind == 'iwanhalf':
                fm = el['p'] ** el['k'] * (el['b1'] + el['b2']) * el['k']
                gm, wm = fm // el['p'] ** 2 * dm, 0
            else:
                fm = el['P'] ** (el['chi'] + 2) * (el['b1'] + el['b2']) * (el['chi'] + 2)
                gm, wm = fm // el['P'] * dm, 0
            if max(fm, gm, wm) * tm < 1e6:
                break
            amp = max(1, amp - 1)
        else:
            return
        scs = []
        for m in (fm, gm, wm):
            s = 1
            while m * tm * (10 ** 6 // s) > 2e9:
                s *= 10
            scs.append(s)
        key = ['aft', kind, el, h, nt, w, Q.tolist(), T.tolist(), ug.T.tolist(), vg.T.tolist()]
        rec.begin(key)
        H = np.array(h)
        nh = sum(1 if k == 0 else 2 for k in h)
        A, B = U.copy(), H.copy()
        r, ex = guard(f.aft, A, rng.choice([float(w), w]), B, Nt=nt, **(dict(calc_grad=rng.random() < 0.5) if rng.random() < 0.4 else {}))
        if ex:
            return exc(ex)
        row = lambda v, s: [FV(x, 1e-3 * s * fu) for x in (v.reshape(nh, -1) if v.shape == (nh * n,) else v.reshape(1, -1))]
        Fc, J, dw = (np.asarray(x) for x in r)
        rec.emit(op='aft', el=el, h=h, w=w, ug=ug.tolist(), vg=vg.tolist(), du=dg.tolist(), dv=dv.tolist(),
                 Q=Q.tolist(), T=T.tolist(), sc=scs[0], scd=scs[1], scw=scs[2],
                 F=row(Fc, scs[0]), JV=row(J @ V, scs[1]) if J.shape == (nh * n, nh * n) else [], dw=row(dw, scs[2]),
                 argchanged=not (np.array_equal(A, U) and np.array_equal(B, H)))

    for kind in ('cubic', 'quintic', 'damp', 'uni', 'poly', 'iwanbb', 'iwanhalf'):
        for _ in range(60 if quick else 800):
            static(kind)
        for _ in range((110 if kind == 'poly' else 80) if quick else 1200):
            aft(kind)


driver_main(run)
