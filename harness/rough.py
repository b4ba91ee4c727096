"""Rough contact (F04).  PART: exact, tan, mif."""
import json
from vlib import *
import numpy as np
import series as ser

HS = [([0, 1], 4), ([0, 1, 2, 3], 8)]


def run(rec, tier, rng, extra):
    quick = tier == 'quick'
    part = extra['PART']
    from tmdsimpy.jax.nlforces.roughcontact.rough_contact import RoughContactFriction as RC
    ri = rng.randint
    beh = json.load(open(extra['beh']))['rough'] if extra.get('beh') else []

    def exc(ex):
        rec.emit(op='exc', prop='F04', exc=ex)

    def make(gaps, w, m, Q, T, plastic=False, etan=0.0, mif=False, u0=0):
        meso = rng.choice([0, 0, 1, 3])
        shift = [g + meso for g in gaps]
        el = dict(gaps=shift, w=w, m=m, exact=part == 'exact', plastic=plastic, mif=mif)
        f = RC(Q.astype(float), T.astype(float), 3.0, 0.0, 100.0, etan, 0.02 if plastic else 20.0, m / 4, u0=u0,
               meso_gap=float(meso), gaps=np.array(gaps, dtype=float), gap_weights=np.array(w, dtype=float),
               tangent_model=rng.choice(['MIF', 'mif']) if mif else 'TAN', N_radial_quad=12)
        return el, f, meso

    # ------------------------------------------------------------------ exact
    def maps():
        n = 3 + rng.choice([0, 0, 1])
        Q = np.zeros((3, n), dtype=int)
        cols = rng.sample(range(n), 3)
        for i, c in enumerate(cols):
            Q[i, c] = rng.choice([1, 1, -1])
        for c in range(n):
            if c not in cols:
                Q[:, c] = [ri(-2, 2) for _ in range(3)]
        T = np.array([[ri(-2, 2) for _ in range(3)] for _ in range(n)])
        if rng.random() < 0.3:
            T = Q.T.copy()
        return Q, T, cols

    def solve(Q, cols, u):
        X = np.array([ri(-3, 3) for _ in range(Q.shape[1])])
        rest = [c for c in range(Q.shape[1]) if c not in cols]
        for i, c in enumerate(cols):
            X[c] = Q[i, c] * (u[i] - sum(Q[i, k] * X[k] for k in rest))
        return X

    def element():
        return rng.choice([([0], [1]), ([0], [2]), ([0, 15], [1, 2]), ([0, 15], [3, 1])])

    def history(ops, tag):
        Q, T, cols = maps()
        gaps, w = element() if tag != 'model' else rng.choice([([0, 15], [1, 2]), ([0], [1])])
        m = rng.choice([2, 2, 4])
        el, f, meso = make(gaps, w, m, Q, T)
        ul = []
        for o in ops:
            if isinstance(o, tuple):
                u = list(o[0])
                u[2] += meso
                ul.append((solve(Q, cols, u), o[1]))
            else:
                ul.append(o)
        rec.begin([tag, el, Q.tolist(), T.tolist(), [o if isinstance(o, str) else [o[0].tolist(), o[1]] for o in ul]],
                  nontrivial=len(ops) > 1, el=el)
        for o in ul:
            ex = None
            if o == 'init':
                _, ex = guard(f.init_history)
                rec.emit(op='init', el=el)
            elif o in ('pre', 'real'):
                _, ex = guard(f.set_prestress_mu if o == 'pre' else f.reset_real_mu)
                rec.emit(op=o)
            elif o == 'aft':
                n = Q.shape[1]
                _, ex = guard(f.aft, np.array([ri(-5, 5) + 0.3 for _ in range(3 * n)]), 1.0, np.array([0, 1]), Nt=4,
                              calc_grad=False)
                rec.emit(op='other')
            else:
                X, upd = o
                A = X.astype(float)
                B = A.copy()
                r, ex = guard(f.force, A, update_hist=upd) if upd or rng.random() < 0.5 else guard(f.force, A)
                if not ex:
                    rec.emit(op='force', el=el, X=X.tolist(), Q=Q.tolist(), T=T.tolist(), upd=upd, F=QV(r[0], 1, 1e-5),
                             D=QM(r[1], 120, 1e-4), argchanged=not np.array_equal(A, B))
                    A *= 0
            if ex:
                return exc(ex)

    NS = [-3, -1, 0, 1, 4, 9, 16]

    def randops(lo=3, hi=12, ns=NS, tan=4):
        ops, u = [], [0, 0, 0]
        if rng.random() < 0.3:
            ops.append('pre')
            for _ in range(ri(1, 3)):
                u = [ri(-tan, tan), ri(-tan, tan), rng.choice(ns)]
                ops.append((list(u), rng.random() < 0.7))
            ops.append('real')
        for _ in range(ri(lo, hi)):
            z = rng.random()
            if z < 0.05:
                ops.append('init')
            elif z < 0.1:
                ops.append('pre')
            elif z < 0.18:
                ops.append('real')
            elif z < 0.23:
                ops.append('aft')
            else:
                if rng.random() < 0.5:
                    u = [u[0] + ri(-1, 1), u[1] + ri(-1, 1), u[2] if rng.random() < 0.5 else rng.choice(ns)]
                else:
                    u = [ri(-tan, tan), ri(-tan, tan), rng.choice(ns)]
                ops.append((list(u), rng.random() < 0.65))
        return ops

    def conv(b):
        return [(o['u'], o['op'] == 'commit') if o['op'] in ('trial', 'commit') else o['op'] for o in b]

    def aft_exact():
        Q, T, cols = maps()
        gaps, w = rng.choice([([0], [1]), ([0, 15], [1, 2])])
        m = rng.choice([2, 4])
        h, nt = rng.choice(HS)
        n = Q.shape[1]
        z = rng.random()
        u0, kw, setx = [0, 0], 0, None
        if z < 0.3:
            u0 = [ri(-3, 3)] * 2
            kw = float(u0[0])
        elif z < 0.5:
            u0 = [ri(-3, 3), ri(-3, 3)]
            kw = np.array([float(v) for v in u0] + ([7.0] if rng.random() < 0.5 else []))
        elif z < 0.7:
            setx = np.array([ri(-3, 3) for _ in range(n)])
            u0 = [int(v) for v in (Q @ setx)[:2]]
        el, f, meso = make(gaps, w, m, Q, T, u0=kw)
        still = rng.random() < 0.4      # little sliding: the initial position stays visible
        while True:
            un = [rng.choice([9, 16] if still else [-3, 1, 4, 9, 16]) for _ in range(nt)]
            if sum(v if t % 2 == 0 else -v for t, v in enumerate(un)) == 0:
                break
        tan = [ser.series(rng, nt, ('full',), 1 if still else 4) for _ in range(2)]
        if rng.random() < 0.15:
            tan[0] = [0] * nt
        ul = np.array([tan[0], tan[1], [v + meso for v in un]]).T
        loc = [ser.series(rng, nt, ('full',), 3) for _ in range(n)]
        ug = np.array([solve_t(Q, cols, ul[t], [c[t] for c in loc]) for t in range(nt)])
        dg = np.array([ser.series(rng, nt, ('full',), 2) for _ in range(n)]).T
        U = ser.pack([ser.coefs(list(c), h) for c in ug.T], h)
        V = ser.pack([ser.coefs(list(c), h) for c in dg.T], h)
        grad = rng.random() < 0.8
        rec.begin(['aft', el, h, nt, Q.tolist(), T.tolist(), ug.T.tolist(), dg.T.tolist(), u0, grad], el=el)
        if setx is not None:
            _, ex = guard(f.set_aft_initialize, setx.astype(float))
            if ex:
                return exc(ex)
        tm = int(np.abs(T).sum(axis=1).max())
        wsum = sum(w)
        fm = wsum * 20 * 64
        dm = int(np.abs(dg @ Q.T).max())
        um = int(np.abs(ul[:, :2]).max())
        dx = wsum * (3600 * 4 * dm * (nt + 1) + 1800 * 2 * um * dm + 900 * m * 4 * dm)
        sc = scd = 1
        while fm * tm * (10 ** 6 // sc) > 2e9:
            sc *= 10
        while dx * tm * (10 ** 6 // scd) > 2e9:
            scd *= 10
        for k in range(rng.choice([1, 1, 2])):
            if k:
                guard(f.force, np.ones(n) * ri(-3, 16), update_hist=True)
                if rng.random() < 0.5:
                    guard(f.init_history)
            H = np.array(h)
            A, B = U.copy(), H.copy()
            lv = rng.random() < 0.25        # local coefficients: no output transformation
            r, ex = guard(f.aft, A, rng.choice([0.0, 1.0, 2.5]), B, Nt=nt, **({} if grad else dict(calc_grad=False)),
                          **(dict(return_local=True) if lv else {}))
            if ex:
                return exc(ex)
            Te = T
            if lv:
                nc = sum(1 if q == 0 else 2 for q in h)
                Te = np.eye(3, dtype=int)
                loc_ok = np.shape(r[0]) == (3, nc) and (not grad or np.shape(r[1]) == (3 * nc, 3 * nc))
                r = [np.reshape(np.asarray(r[0]), -1, 'F')] + [np.asarray(v) for v in r[1:]] if loc_ok else [np.zeros(1)] * 3
                n, V = 3, np.reshape(Q @ np.reshape(V, (Q.shape[1], nc), 'F'), -1, 'F')
                if not loc_ok:
                    V = np.zeros(1)
            nh = sum(1 if q == 0 else 2 for q in h)
            row = lambda v, s: [FV(x, 1e-3 * s) for x in (v.reshape(nh, -1) if v.shape == (nh * n,) else v.reshape(1, -1))]
            ev = dict(op='aft', el=el, h=h, ug=ug.tolist(), dg=dg.tolist(), Q=Q.tolist(), T=Te.tolist(), u0=u0, sc=sc,
                      scd=scd, grad=grad, F=row(np.asarray(r[0]), sc), JV=[], dw=[],
                      argchanged=not (np.array_equal(A, U) and np.array_equal(B, H)))
            if grad:
                ev['JV'] = row(120 * (np.asarray(r[1]) @ V), scd)
                ev['dw'] = QV(r[2], 1e6)
            rec.emit(**ev)
            if lv:
                break

    def solve_t(Q, cols, u, free):
        X = np.array(free)
        rest = [c for c in range(Q.shape[1]) if c not in cols]
        for i, c in enumerate(cols):
            X[c] = Q[i, c] * (u[i] - sum(Q[i, k] * X[k] for k in rest))
        return X

    # ------------------------------------------------------------- relational
    def perm():
        Q = np.zeros((3, 3), dtype=int)
        p = rng.sample(range(3), 3)
        s = [rng.choice([1, 1, -1]) for _ in range(3)]
        for i in range(3):
            Q[i, p[i]] = s[i]
        return Q, Q.T.copy()

    def relelement(u0=0):
        Q, T = perm()
        m = rng.choice([1, 2, 3])
        if part == 'tan':
            gaps, w = rng.choice([([0], [1]), ([0], [2]), ([0, 2, 5], [2, 1, 1])])
            plastic, etan = rng.choice([(True, 0.0), (True, 0.3), (True, 0.3)])
        else:
            gaps, w = rng.choice([([0, 3], [1, 2]), ([0, 3], [2, 1])])
            plastic, etan = rng.choice([(True, 0.3), (True, 0.3), (False, 0.1)])
        el, f, meso = make(gaps, w, m, Q, T, plastic, etan, part == 'mif', u0)
        return el, f, Q, T, meso

    def relhistory():
        el, f, Q, T, meso = relelement()
        ns = [-2, 0, 1, 2, 3, 4, 6, 9, 12, 16]
        ops = randops(6, 22, ns, 8)
        rec.begin([part, el, Q.tolist(), ops], el=el)
        committed = []
        calls = []
        for o in ops:
            ex = None
            if o == 'init':
                _, ex = guard(f.init_history)
                calls.append(o)
                rec.emit(op='init', el=el)
            elif o in ('pre', 'real'):
                _, ex = guard(f.set_prestress_mu if o == 'pre' else f.reset_real_mu)
                calls.append(o)
                rec.emit(op=o)
            elif o == 'aft':
                _, ex = guard(f.aft, np.array([ri(-5, 5) + 0.3 for _ in range(9)]), 1.0, np.array([0, 1]), Nt=8, calc_grad=False)
                rec.emit(op='other')
            else:
                u, upd = list(o[0]), o[1]
                u[2] += meso
                A = (T @ np.array(u)).astype(float)
                B = A.copy()
                r, ex = guard(f.force, A, update_hist=upd, return_aux=True)
                if not ex:
                    fl = np.asarray(Q @ np.asarray(r[0]))
                    aux = r[2]
                    fx = FV(fl, 0.01)
                    # derivative along a direction, by differences of uncommitted evaluations (only where smooth)
                    fd, jv = [], []
                    if not upd and rng.random() < 0.6:
                        C = B + np.array([rng.uniform(-0.3, 0.3) for _ in range(3)])
                        V = np.array([rng.uniform(-1, 1) for _ in range(3)])
                        r2, e2 = guard(f.force, C)
                        ds = [(np.asarray(f.force(C + e * V)[0]) - np.asarray(f.force(C - e * V)[0])) / (2 * e)
                              for e in (1e-5, 3e-5)]
                        if e2:
                            exc(e2)
                            return
                        s = max(1.0, np.abs(ds[0]).max())
                        if np.abs(ds[0] - ds[1]).max() < 5e-6 * s:
                            fd = FV(ds[0], s * 1e-4)
                            jv = FV(np.asarray(r2[1]) @ V, s * 1e-4)
                    rec.emit(op='force', el=el, u=u, upd=upd, fl=fx, a=FV(aux[4], 1e-3), fd=fd, jv=jv,
                             argchanged=not np.array_equal(A, B))
                    if upd:
                        committed.append(fx)
                        calls.append(B)
            if ex:
                return exc(ex)
        # the same history with only the committed evaluations
        f.init_history()
        f.reset_real_mu()
        again = []
        for c in calls:
            if isinstance(c, str):
                guard({'init': f.init_history, 'pre': f.set_prestress_mu, 'real': f.reset_real_mu}[c])
            else:
                r, ex = guard(f.force, c, update_hist=True)
                if ex:
                    return exc(ex)
                again.append(FV(Q @ np.asarray(r[0]), 0.01))
        rec.emit(op='same', p=committed, q=again)

    def relaft():
        z = rng.random()
        u0, kw = [0.0, 0.0], 0
        if z < 0.4:
            u0 = [rng.uniform(-3, 3), rng.uniform(-3, 3)]
            kw = np.array(u0)
        el, f, Q, T, meso = relelement(kw)
        h, nt = ([0, 1, 2], 16)
        npr = np.random.RandomState(ri(0, 10 ** 6))
        loc = npr.uniform(-4, 4, (5, 3))
        loc[0, 2] = npr.uniform(0, 9) + meso
        loc[1:, 2] *= 1.5
        if rng.random() < 0.2:
            loc[:, 0] = 0
        U = (loc @ T.T).reshape(-1)
        t = 2 * np.pi * np.arange(nt) / nt
        B = np.stack([np.ones(nt), np.cos(t), np.sin(t), np.cos(2 * t), np.sin(2 * t)], 1)
        ult = B @ loc
        if ult[:, 2].max() > 24:
            loc[:, 2] *= 20 / ult[:, 2].max()
            ult = B @ loc
            U = (loc @ T.T).reshape(-1)
        rec.begin([part, 'aft', el, U.tolist(), u0, Q.tolist()], el=el)
        grad = rng.random() < 0.7
        if rng.random() < 0.5:
            guard(f.force, np.array([1.0, 2.0, 3.0]), update_hist=True)
        A = U.copy()
        r, ex = guard(f.aft, A, rng.choice([0.0, 1.3]), np.array(h), Nt=nt, **({} if grad else dict(calc_grad=False)))
        if ex:
            return exc(ex)
        # stepping the static law
        f.init_history()
        call = lambda u: guard(f.force, T @ np.array(u), update_hist=True)
        _, ex = call([u0[0], u0[1], -5.0])
        _, ex2 = call([u0[0], u0[1], ult[:, 2].max()])
        steps = []
        for p in range(2):
            for k in range(nt):
                s, ex = call(ult[k])
                if ex:
                    return exc(ex)
                if p:
                    steps.append(FV(Q @ np.asarray(s[0]), 0.01))
        mx = max(abs(v) for s in steps for v in s)
        sc = 1
        while mx * (10 ** 6 // sc) > 2e9:
            sc *= 10
        Fl = np.asarray(r[0]).reshape(5, 3) @ Q.T
        ev = dict(op='aft', el=el, h=h, grad=grad, steps=steps, sc=sc, F=[FV(x, 1e-5 * sc) for x in Fl], fd=[], jv=[], dw=[],
                  argchanged=not np.array_equal(A, U))
        if grad:
            ev['dw'] = QV(r[2], 1e6)
            V = npr.uniform(-1, 1, 15)

            def fd(e):
                p, e1 = guard(f.aft, U + e * V, 1.0, np.array(h), Nt=nt, calc_grad=False)
                q, e2 = guard(f.aft, U - e * V, 1.0, np.array(h), Nt=nt, calc_grad=False)
                if e1 or e2:
                    return None, 0
                p, q = np.asarray(p[0]), np.asarray(q[0])
                return (p - q) / (2 * e), np.abs(p + q - 2 * mid).max() / e
            mid, e0 = guard(f.aft, U.copy(), 1.0, np.array(h), Nt=nt, calc_grad=False)
            mid = None if e0 else np.asarray(mid[0])
            d1, d2 = (None, None) if e0 else (fd(1e-5), fd(3e-5))
            if d1 is not None and d1[0] is not None and d2[0] is not None:
                s = max(1.0, np.abs(d1[0]).max())
                # (only where the force is smooth: same limit for both steps and from both sides)
                if np.abs(d1[0] - d2[0]).max() < 5e-6 * s and d1[1] < 4e-4 * s:
                    d1 = d1[0]
                    ev['fd'] = FV(d1, s * 1e-4)
                    ev['jv'] = FV(np.asarray(r[1]) @ V, s * 1e-4)
        rec.notes['derivatives compared'] = rec.notes.get('derivatives compared', 0) + (1 if ev['fd'] else 0)
        rec.emit(**ev)

    if part == 'exact':
        m = 200 if quick else 4000
        for b in (beh if len(beh) <= m else rng.sample(beh, m)):
            history(conv(b), 'model')
        for _ in range(150 if quick else 3000):
            history(randops(), 'random')
        for _ in range(90 if quick else 1500):
            aft_exact()
    else:
        for _ in range(60 if quick else 1000):
            relhistory()
        for _ in range(30 if quick else 500):
            relaft()


driver_main(run)
