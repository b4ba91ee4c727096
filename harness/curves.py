"""Interpolation of continuation histories (P02)."""
from vlib import *
import numpy as np

CU = 1000


def run(rec, tier, rng, extra):
    quick = tier == 'quick'
    from tmdsimpy.postprocess import continuation as cp
    ri = rng.randint

    def rising(M, g):
        r = [ri(-5, 5)]
        for _ in range(M - 1):
            r.append(r[-1] + ri(1, g))
        return r

    def requests(R, k, dens):
        lo, hi = min(R), max(R)
        out = []
        for _ in range(k):
            z = rng.random()
            if z < 0.25:
                out.append(dict(num=rng.choice(R), den=1, side=0))
            elif z < 0.32:
                out.append(dict(num=rng.choice([lo, hi]), den=1, side=rng.choice([-1, 1])))
            else:
                d = rng.choice(dens)
                out.append(dict(num=ri(lo * d, hi * d), den=d, side=0))
        return out

    def value(z):
        v = z['num'] / z['den']
        return float(np.nextafter(v, v + z['side'])) if z['side'] else v

    def rows(r):
        return [[F(v, 1 / CU) for v in a] for a in r]

    def touched(r, args):
        """arguments share memory with the result"""
        return any(np.shares_memory(r, a) for a in args)

    def linear():
        M, n = ri(1, 7), ri(1, 4)
        own = rng.random() < 0.5
        R = rising(M, 5)
        if rng.random() < 0.12 and M > 1:
            i = ri(1, M - 1)
            R[i] = R[i - 1] - ri(0, 2)
        X = [[ri(-90, 90) for _ in range(n)] + [R[i] if not own else ri(-90, 90)] for i in range(M)]
        new = requests(R, ri(1, 8), [2, 3, 4, 6, 8])
        if rng.random() < 0.4:       # just beside a stored value
            d = rng.choice([500, 1000, 2000])
            new.append(dict(num=rng.choice(R) * d + rng.choice([-1, 1]), den=d, side=0))
        for z in new:
            if rng.random() < 0.25:
                z.update(num=z['num'] + rng.choice([-9, -1, 1, 9]) * z['den'], side=0)
        scalar = len(new) == 1 and rng.random() < 0.5
        rec.begin(['linear', R, X, new, own, scalar])
        A, B = np.array(X, dtype=float), np.array(R, dtype=float)
        V = np.array([value(z) for z in new]) if not scalar else value(new[0])
        c = [A.copy(), B.copy(), np.copy(V)]
        r, ex = guard(cp.linear_interp, A, V, **(dict(reference_values=B) if own else {}))
        ch = not (np.array_equal(A, c[0]) and np.array_equal(B, c[1]) and np.array_equal(V, c[2]))
        if ex:
            return rec.emit(op='linear', R=R, X=X, new=new, exc=ex)
        if np.ndim(r) != 2:
            return rec.emit(op='exc', prop='P02', exc='shape')
        ch = ch or touched(r, [A, B])
        rec.emit(op='linear', R=R, X=X, new=new, exc='', argchanged=ch, out=rows(r), nan=np.isnan(r).tolist())

    def table():
        M, n = ri(2, 6), ri(1, 4)
        lam = rising(M, 3)
        cubic = rng.random() < 0.3
        if cubic:
            lam = [v - lam[0] - ri(0, 2) for v in lam]
            M = max(2, sum(v <= 4 for v in lam))
            lam = lam[:M]
            while lam[-1] > 4:
                lam = [v - 1 for v in lam]
        X, G = [], []
        cs = [[ri(-2, 2), ri(-2, 2), ri(-1, 1), rng.choice([0, 1, -1]) if lam[0] >= -3 else 0] for _ in range(n)]
        for x in lam:
            D = ri(1, 3)
            if cubic:
                X.append([c[0] + c[1] * x + c[2] * x * x + c[3] * x ** 3 for c in cs] + [x])
                G.append([D * (c[1] + 2 * c[2] * x + 3 * c[3] * x * x) for c in cs] + [D])
            else:
                X.append([ri(-20, 20) for _ in range(n)] + [x])
                G.append([ri(-20, 20) for _ in range(n)] + [D])
        if max(abs(v) for r in X for v in r) > 60 or max(abs(v) // r[-1] for r in G for v in r) > 40:
            return table()
        return X, G

    def spoil(X, G):
        z = rng.random()
        i = ri(1, len(X) - 1)
        if z < 0.05:
            X[i][-1] = X[i - 1][-1] - ri(0, 1)
        elif z < 0.1:
            G[ri(0, len(G) - 1)][-1] = rng.choice([0, -1, -2])

    def hermite():
        X, G = table()
        R = [r[-1] for r in X]
        new = requests(R, ri(1, 8), [2, 3, 4])
        new = [z for z in new if z['side'] == 0] or [dict(num=R[0], den=1, side=0)]
        spoil(X, G)
        if rng.random() < 0.15:
            k = rng.randrange(len(new))
            new[k] = rng.choice([dict(num=min(R), den=1, side=-1), dict(num=max(R), den=1, side=1), dict(num=max(R) * 4 + 1, den=4, side=0),
                                 dict(num=min(R) - 3, den=1, side=0)])
        via = rng.random() < 0.4
        rec.begin(['hermite', X, G, new, via])
        scale = rng.choice([1.0, 0.5, 2.0])
        A, B, V = np.array(X, dtype=float), np.array(G, dtype=float) * scale, np.array([value(z) for z in new])
        c = [A.copy(), B.copy(), V.copy()]
        if via:
            r, ex = guard(cp.hermite_upsample, A, B, upsample_freq=ri(1, 5), new_lams=V)
        else:
            r, ex = guard(cp.hermite_interp, A, B, V)
        ch = not (np.array_equal(A, c[0]) and np.array_equal(B, c[1]) and np.array_equal(V, c[2]))
        if ex:
            return rec.emit(op='hermite', X=X, G=G, new=new, exc=ex)
        ch = ch or touched(r, [A, B, V])
        rec.emit(op='hermite', X=X, G=G, new=new, exc='', argchanged=ch, out=rows(r))
        # slope of the returned curve at stored points
        i = rng.randrange(len(X))
        e = 1e-4
        lo, hi = max(min(R), R[i] - e), min(max(R), R[i] + e)
        p, ex = guard(cp.hermite_interp, A, B, np.array([lo, hi]))
        if ex:
            return rec.emit(op='exc', prop='P02', exc=ex)
        rec.emit(op='slope', G=G[i][:-1], D=G[i][-1], fd=FV((p[1, :-1] - p[0, :-1]) / (hi - lo), 0.01))

    def upsample():
        X, G = table()
        spoil(X, G)
        f = ri(1, 10)
        rec.begin(['upsample', X, G, f])
        A, B = np.array(X, dtype=float), np.array(G, dtype=float)
        c = [A.copy(), B.copy()]
        if f == 10:
            r, ex = guard(cp.hermite_upsample, A, B)
        else:
            r, ex = guard(cp.hermite_upsample, A, B, upsample_freq=f)
        ch = not (np.array_equal(A, c[0]) and np.array_equal(B, c[1]))
        if ex:
            return rec.emit(op='upsample', X=X, G=G, f=f, new=[], exc=ex)
        rec.emit(op='upsample', X=X, G=G, f=f, new=[], exc='', argchanged=ch or touched(r, [A, B]), out=rows(r))

    for _ in range(300 if quick else 4000):
        linear()
        hermite()
        upsample()


driver_main(run)
